From 0f5f1da0799c872cc8ae8c730e51f0b305d0cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 01/30] fix: D(k) detects its orthogonal/permutation flags with
 the reflection included

---
 emlp/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9e74f69..60c0c2e 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -173,6 +173,8 @@ class D(C):
     def __init__(self,k):
         super().__init__(k)
         self.discrete_generators = np.concatenate((self.discrete_generators,np.array([[[-1,0],[0,1]]])))
+        self.is_orthogonal = self.is_permutation = None # flags must account for the reflection
+        Group.__init__(self,k)
 @export
 class Scaling(Group):
     """ The scaling group in n dimensions"""
-- 
2.43.0


From 973988d1d5c64aba625d6aaf9d9e2dd7565c4c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 02/30] fix: LazyDirectSum keeps its multiplicities in adjoint
 and invT, accepts none and has the right column count

---
 emlp/reps/linear_operators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 830ee13..61c75cc 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -137,8 +137,8 @@ class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
         self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
-        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)),
-                      sum(Mi.shape[0]*c for Mi,c in zip(Ms,multiplicities)))
+        shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)),
+                      sum(Mi.shape[1]*c for Mi,c in zip(Ms,self.multiplicities)))
         super().__init__(None,shape)
         #self.dtype=Ms[0].dtype
         #self.dtype=jnp.dtype('float32')
@@ -149,9 +149,9 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms])
+        return LazyDirectSum([Mi.T for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms])
+        return LazyDirectSum([M.invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From 4808b21f182fb1dbcf4e47e3b8de92433762c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 03/30] fix: inverse transpose of a scaled operator

---
 emlp/reps/linear_operator_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 41eab9a..e88beb7 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -623,7 +623,7 @@ class _ScaledLinearOperator(LinearOperator):
         return A.H * np.conj(alpha)
     def invT(self):
         A, alpha = self.args
-        return (1/alpha)*A.T
+        return (1/alpha)*A.invT()
     def to_dense(self):
         A, alpha = self.args
         return alpha*A.to_dense()
-- 
2.43.0


From 0752987fb579fd4931cef0d8faf03cfa1afaf7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 04/30] fix: inverse transpose of a sum of operators is not the
 sum of the inverse transposes

---
 emlp/reps/linear_operator_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index e88beb7..ddd2e35 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -555,8 +555,7 @@ class _SumLinearOperator(LinearOperator):
         return A.H + B.H
 
     def invT(self):
-        A,B = self.args
-        return A.invT() + B.invT()
+        return Lazy(np.linalg.inv(self.to_dense()).T)
 
 class _ProductLinearOperator(LinearOperator):
     def __init__(self, A, B):
-- 
2.43.0


From c7883eee399a2916499ef57aab7bc44d420c8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 05/30] fix: Lazy adjoint conjugates complex matrices

---
 emlp/reps/linear_operator_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index ddd2e35..6ffccff 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -726,9 +726,9 @@ class Lazy(LinearOperator):
     def _matvec(self,v):
         return self.A@v
     def _rmatmat(self,V):
-        return self.A.T@V
+        return self.A.T.conj()@V
     def _rmatvec(self,v):
-        return self.A.T@v
+        return self.A.T.conj()@v
     def to_dense(self):
         return self.A
     def invT(self):
-- 
2.43.0


From 400770404e2360eb5f8753eabf508b568dc412a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 06/30] fix: adjoints of structured operators conjugate complex
 factors

---
 emlp/reps/linear_operators.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 61c75cc..6ebd920 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -12,6 +12,9 @@ def lazify(x):
     elif isinstance(x,(jnp.ndarray,np.ndarray)): return Lazy(x)
     else: raise NotImplementedError
 
+def hermitian(x):
+    return x.H if isinstance(x,LinearOperator) else x.T.conj()
+
 def densify(x):
     if isinstance(x,LinearOperator): return x.to_dense()
     elif isinstance(x,(jnp.ndarray,np.ndarray)): return x
@@ -48,7 +51,7 @@ class LazyKron(LinearOperator):
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-        return LazyKron([Mi.T for Mi in self.Ms])
+        return LazyKron([hermitian(Mi) for Mi in self.Ms])
     def invT(self):
         return LazyKron([M.invT() for M in self.Ms])
     def to_dense(self):
@@ -85,7 +88,7 @@ class LazyKronsum(LinearOperator):
         return out.reshape(self.shape[0],ev.shape[-1])
         
     def _adjoint(self):
-        return LazyKronsum([Mi.T for Mi in self.Ms])
+        return LazyKronsum([hermitian(Mi) for Mi in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(kronsum,Ms)
@@ -111,7 +114,7 @@ class LazyJVP(LinearOperator):
     def _matvec(self,v):
         return self.vjp(v)
     def _rmatmat(self,v):
-        return self.vjp_T(v)
+        return self.vjp_T(v.conj()).conj()
     
 
 class ConcatLazy(LinearOperator):
@@ -128,7 +131,7 @@ class ConcatLazy(LinearOperator):
         return jnp.concatenate([M@V for M in self.Ms],axis=0)
     def _rmatmat(self,V):
         Vs = jnp.split(V,len(self.Ms))
-        return sum([self.Ms[i].T@Vs[i] for i in range(len(self.Ms))])
+        return sum([hermitian(self.Ms[i])@Vs[i] for i in range(len(self.Ms))])
     def to_dense(self):
         dense_Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return jnp.concatenate(dense_Ms,axis=0)
@@ -149,7 +152,7 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms],self.multiplicities)
+        return LazyDirectSum([hermitian(Mi) for Mi in self.Ms],self.multiplicities)
     def invT(self):
         return LazyDirectSum([M.invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
-- 
2.43.0


From 83b5d751bf7b459d471937168cc3c8dc61c62dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 07/30] fix: the transpose of operators that define only
 _rmatmat applies to vectors

---
 emlp/reps/linear_operator_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 6ffccff..173b4de 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -242,7 +242,8 @@ class LinearOperator(object):
         """Default implementation of _rmatvec; defers to adjoint."""
         if type(self)._adjoint == LinearOperator._adjoint:
             # _adjoint not overridden, prevent infinite recursion
-            raise NotImplementedError
+            if type(self)._rmatmat == LinearOperator._rmatmat: raise NotImplementedError
+            return self._rmatmat(x.reshape(-1, 1))
         else:
             return self.H.matvec(x)
 
-- 
2.43.0


From 44b95f0dbbb1b135fd4755c7090679b4a36c3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 08/30] fix: do not export a name that does not exist

---
 emlp/reps/linear_operator_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 173b4de..562acad 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -36,7 +36,7 @@ import warnings
 
 import jax.numpy as np
 
-__all__ = ['LinearOperator', 'aslinearoperator']
+__all__ = ['LinearOperator']
 
 
 class LinearOperator(object):
-- 
2.43.0


From 36b2fbc533c9739150229cc8462463a04250423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 09/30] fix: SwapMatrix uses an API that jax removed

---
 emlp/reps/linear_operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 6ebd920..8c6e1d4 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -213,7 +213,8 @@ class SwapMatrix(LinearOperator):
         shape = (n,n)
         super().__init__(None,shape)
     def _matmat(self,V): #(c,k)
-        V = jax.ops.index_update(V, jax.ops.index[self.swaprows], V[self.swaprows[::-1]])
+        rows = jnp.array(self.swaprows)
+        V = jnp.asarray(V).at[rows].set(jnp.asarray(V)[rows[::-1]])
         return V
     def _matvec(self,V):
         return self._matmat(V)
-- 
2.43.0


From c9738658b36d9136ed32038b5a38dcfa8d744618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 10/30] fix: instantiating Scalar with a group does not alter
 the shared Scalar object

---
 emlp/reps/representation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ad31ef1..baaa61c 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -204,8 +204,7 @@ class ScalarRep(Rep):
         self.G=G
         self.is_permutation = True
     def __call__(self,G):
-        self.G=G
-        return self
+        return ScalarRep(G)
     def size(self):
         return 1
     def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
-- 
2.43.0


From 9af60b8bb06f9ca23729432e8a5f85257bde86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 11/30] fix: comparing a SumRep with another representation
 does not crash

---
 emlp/reps/product_sum_reps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index ceb9296..6a081ec 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -41,7 +41,8 @@ class SumRep(Rep):
         return LazyPerm(self.invperm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.perm)
 
     def __eq__(self, other):
-        return self.reps==other.reps and (self.perm==other.perm).all()
+        return isinstance(other,SumRep) and list(self.reps.items())==list(other.reps.items()) \
+            and (self.perm==other.perm).all()
 
     def __hash__(self):
         assert self.canonical
-- 
2.43.0


From 8024095976af330c2aaab939019467e42567661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 12/30] fix: instantiating a SumRep keeps summands that become
 equal

---
 emlp/reps/product_sum_reps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 6a081ec..6b35634 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -67,7 +67,7 @@ class SumRep(Rep):
         return SumRepFromCollection(self.reps),self.perm
 
     def __call__(self,G):
-        return SumRepFromCollection({rep(G):c for rep,c in self.reps.items()},perm=self.perm)
+        return SumRep(*[rep(G) for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)
 
     @property
     def concrete(self):
-- 
2.43.0


From 57ee440063ec249024e1a11dee81f9a7b8eac709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 13/30] fix: groups with different arguments do not share a
 repr

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 60c0c2e..85de8f4 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -86,7 +86,7 @@ class Group(object,metaclass=Named):
     def __repr__(self):
         outstr = f"{self.__class__}"
         if self.args:
-            outstr += '('+''.join(repr(arg) for arg in self.args)+')'
+            outstr += '('+','.join(repr(arg) for arg in self.args)+')'
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-- 
2.43.0


From e55a8db16c103f15e41f3480e2c013f671513c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 14/30] fix: groups of different classes are not equal

---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 85de8f4..c13609c 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -90,7 +90,7 @@ class Group(object,metaclass=Named):
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-        return repr(self)==repr(G2)
+        return type(self)==type(G2) and repr(self)==repr(G2)
         
     def __hash__(self):
         return hash(repr(self))
-- 
2.43.0


From 3beed2295949f4e68d88b0f9301d994de54d9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 15/30] fix: Embed keeps complex and lazy generators and is
 identified by its slice

---
 emlp/groups.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index c13609c..e32b3e6 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -434,12 +434,14 @@ class Embed(Group):
     d: the dimension in which to embed
     slice: a slice object specifying which dimensions G acts on."""
     def __init__(self,G,d,slice):
-        self.lie_algebra = np.zeros((G.lie_algebra.shape[0],d,d))
-        self.discrete_generators = np.zeros((G.discrete_generators.shape[0],d,d))
+        lie_algebra,discrete_generators = [[np.asarray(M@jnp.eye(G.d)) for M in gens] for gens in (G.lie_algebra,G.discrete_generators)]
+        dtype = np.result_type(float,*lie_algebra,*discrete_generators)
+        self.lie_algebra = np.zeros((len(lie_algebra),d,d),dtype)
+        self.discrete_generators = np.zeros((len(discrete_generators),d,d),dtype)
         self.discrete_generators += np.eye(d)
-        self.lie_algebra[:,slice,slice] = G.lie_algebra
-        self.discrete_generators[:,slice,slice]  =G.discrete_generators
-        self.name = f"{G}_R{d}"
+        for i,A in enumerate(lie_algebra): self.lie_algebra[i,slice,slice] = A
+        for i,h in enumerate(discrete_generators): self.discrete_generators[i,slice,slice] = h
+        self.name = f"{G}_R{d}_{slice}"
         super().__init__()
    
     def __repr__(self):
-- 
2.43.0


From bb728b192c93a181f718746b95f26d029e613238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 16/30] fix: SU(1) is the trivial group

---
 emlp/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index e32b3e6..5fadb85 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -329,7 +329,9 @@ class U(Group):  # Of dimension n^2
 class SU(Group):  # Of dimension n^2-1
     """ The special unitary group SU(n) in n dimensions (complex)"""
     def __init__(self,n):
-        if n==1: return Trivial(1)
+        if n==1:
+            self.d = 1
+            return super().__init__(n)
         lie_algebra_real = np.zeros((n**2-1,n,n))
         lie_algebra_imag = np.zeros((n**2-1,n,n))
         k=0
-- 
2.43.0


From 7b6c1ad59f4d13a88602038cdd6deef82837d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 17/30] fix: gating works for single representations and
 representations of product groups

---
 emlp/nn/objax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 2f92846..f90e248 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -70,9 +70,9 @@ def gated(ch_rep:Rep) -> Rep:
         reps in the input. To be used as the output for linear (and or bilinear) layers directly
         before a :func:`GatedNonlinearity` to produce its scalar gates. """
     if isinstance(ch_rep,SumRep):
-        return ch_rep+sum([Scalar(rep.G) for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
+        return ch_rep+sum([1 for rep in ch_rep if rep!=Scalar and not rep.is_permutation])
     else:
-        return ch_rep+Scalar(ch_rep.G) if not ch_rep.is_permutation else ch_rep
+        return ch_rep+1 if not ch_rep.is_permutation else ch_rep
 
 @export
 class GatedNonlinearity(Module):
@@ -333,11 +333,11 @@ def gate_indices(ch_rep:Rep) -> jnp.ndarray:
     """ Indices for scalars, and also additional scalar gates
         added by gated(sumrep)"""
     channels = ch_rep.size()
-    perm = ch_rep.perm
     indices = np.arange(channels)
 
     if not isinstance(ch_rep,SumRep): # If just a single rep, only one scalar at end
-        return indices if ch_rep.is_permutation else np.ones(ch_rep.size())*ch_rep.size()
+        return indices if ch_rep.is_permutation else np.full(channels,channels)
+    perm = ch_rep.perm
 
     num_nonscalars = 0
     i=0
-- 
2.43.0


From 9790738587b515e5f5f457fd66361fdc1058d417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 18/30] fix: bilinear_weights accepts representations that are
 not sums

---
 emlp/reps/representation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index baaa61c..ac66fc1 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -416,6 +416,8 @@ def sparsify_basis(Q,lr=1e-2): #(n,r)
 @export
 def bilinear_weights(out_rep,in_rep):
     #TODO: replace lazy_projection function with LazyDirectSum LinearOperator
+    SumRep = emlp.reps.product_sum_reps.SumRep
+    in_rep,out_rep = [rep if isinstance(rep,SumRep) else SumRep(rep) for rep in (in_rep,out_rep)]
     W_rep,W_perm = (in_rep>>out_rep).canonicalize()
     # possible bug when in_rep and out_rep are both non sumreps? #TODO: investigate
     inv_perm = np.argsort(W_perm)
-- 
2.43.0


From 8b10b1f0073c37e6b91a95a5476a8abb7b8aa05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 19/30] fix: the canonical ordering of representations is a
 strict total order

---
 emlp/reps/representation.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ac66fc1..a773175 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -164,15 +164,12 @@ class Rep(object):
         return self*other.T
     def __lt__(self, other):
         """ less than defined to disambiguate ordering multiple different representations.
-            Canonical ordering is determined first by Group, then by size, then by hash"""
-        if other==Scalar: return False
-        try: 
-            if self.G<other.G: return True
-            if self.G>other.G: return False
-        except (AttributeError,TypeError): pass
-        if self.size()<other.size(): return True
-        if self.size()>other.size(): return False
-        return hash(self) < hash(other) #For sorting purposes only
+            Canonical ordering is determined first by Group, then by size, duality and hash"""
+        def key(rep): #For sorting purposes only
+            if rep==Scalar: return (0,)
+            G = getattr(rep,'G',None) # representations of one group are contiguous
+            return (1,repr(G),hash(type(G)),rep.size(),isinstance(rep,Dual),hash(rep))
+        return key(self)<key(other)
     def __mod__(self,other): # Wreath product
         """ Wreath product of representations (Not yet implemented)"""
         raise NotImplementedError
@@ -255,9 +252,6 @@ class Base(Rep):
         return hash((type(self),self.G))
     def __eq__(self,other):
         return type(other)==type(self) and self.G==other.G
-    def __lt__(self,other):
-        if isinstance(other,Dual): return True
-        return super().__lt__(other)
     # @property
     # def T(self):
     #     return Dual(self.G)
@@ -285,9 +279,6 @@ class Dual(Rep):
         return type(other)==type(self) and self.rep==other.rep
     def __hash__(self):
         return hash((type(self),self.rep))
-    def __lt__(self,other):
-        if other==self.rep: return False
-        return super().__lt__(other)
     def size(self):
         return self.rep.size()
         
-- 
2.43.0


From c8a994f0bad9784f68ea46fe817ea29aac51bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 20/30] fix: products over several groups keep the order within
 each group's factor

---
 emlp/reps/product_sum_reps.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 6b35634..85fc657 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -361,9 +361,8 @@ class DirectProduct(ProductRep):
             group_dict = defaultdict(lambda: 1)
             for rep,c in reps.items():
                 group_dict[rep.G]=group_dict[rep.G]*rep**c
-            sub_products = {rep:1 for G,rep in group_dict.items()}
-            self.reps = counter = sub_products
-            self.reps,perm2 = self.compute_canonical([counter],[np.arange(self.size())])
+            sub_reps,sub_perms = zip(*[rep.canonicalize() for rep in group_dict.values()])
+            self.reps,perm2 = self.compute_canonical([{rep:1} for rep in sub_reps],sub_perms)
             self.perm = extra_perm[perm[perm2]] if extra_perm is not None else perm[perm2]
         self.invperm = np.argsort(self.perm)
         self.canonical=(self.perm==self.invperm).all()
-- 
2.43.0


From 203ee34bb846cfc6dac342a991f27e90133d6bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 21/30] fix: RubiksCube generators are the face turns of a real
 cube

---
 emlp/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 5fadb85..acd014e 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -397,11 +397,15 @@ class RubiksCube(Group): #3x3 rubiks cube
         RotFront =pad(np.arange(48))# rotate full cube so that Left face becomes Up, Up becomes Right, Right becomes Down, Down becomes Left
         URDL = np.array([0,2,5,4])
         RotFront[URDL,:] = RotFront[np.roll(URDL,1),:]
+        for face,k in zip((0,2,5,4,1,3),(-1,-1,-1,-1,-1,1)): # the stickers on each face turn too (the back the other way)
+            RotFront[face] = np.rot90(RotFront[face].reshape(3,3),k).reshape(9)
         RotFront = unpad(RotFront)
         RotBack = np.argsort(RotFront)
         RotLeft = pad(np.arange(48))
         UFDB = np.array([0,1,5,3])
         RotLeft[UFDB,:] = RotLeft[np.roll(UFDB,1),:]
+        for face,k in zip((0,3,4,2),(2,2,-1,1)):
+            RotLeft[face] = np.rot90(RotLeft[face].reshape(3,3),k).reshape(9)
         RotLeft = unpad(RotLeft)
         RotRight = np.argsort(RotLeft)
 
-- 
2.43.0


From 931dab6cb6409d384c7cb53c30699f189b15bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 22/30] fix: the equivariant basis is not NaN when the single
 precision SVD fails to converge

---
 emlp/reps/representation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index a773175..90df7d0 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -294,6 +294,8 @@ def T(p,q=0,G=None):
 def orthogonal_complement(proj):
     """ Computes the orthogonal complement to a given matrix proj"""
     U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    if jnp.isnan(S).any(): # single precision LAPACK failed to converge
+        U,S,VH = map(jnp.asarray,np.linalg.svd(np.asarray(proj)*np.float64(1),full_matrices=True))
     rank = (S>1e-5).sum()
     return VH[rank:].conj().T
 
-- 
2.43.0


From 796fc51911a8d01e38b2f27401e145fe2b16ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 23/30] fix: direct sums keep the imaginary part of complex
 numpy matrices

---
 emlp/reps/linear_operators.py | 2 +-
 emlp/reps/product_sum_reps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 8c6e1d4..87cb80f 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -138,7 +138,7 @@ class ConcatLazy(LinearOperator):
     
 class LazyDirectSum(LinearOperator):
     def __init__(self,Ms,multiplicities=None):
-        self.Ms = [jax.device_put(M.astype(np.float32)) if isinstance(M,(np.ndarray)) else M for M in Ms]
+        self.Ms = [jax.device_put(M) if isinstance(M,(np.ndarray)) else M for M in Ms]
         self.multiplicities = [1 for M in Ms] if multiplicities is None else multiplicities
         shape = (sum(Mi.shape[0]*c for Mi,c in zip(Ms,self.multiplicities)),
                       sum(Mi.shape[1]*c for Mi,c in zip(Ms,self.multiplicities)))
diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 85fc657..eab30f3 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -77,7 +77,7 @@ class SumRep(Rep):
         """ Overrides default implementation with a more efficient version which decomposes the constraints
             across the sum."""
         Qs = {rep: rep.equivariant_basis() for rep in self.reps}
-        Qs = {rep: (jax.device_put(Q.astype(np.float32)) if isinstance(Q,(np.ndarray)) else Q) for rep,Q in Qs.items()}
+        Qs = {rep: (jax.device_put(Q) if isinstance(Q,(np.ndarray)) else Q) for rep,Q in Qs.items()}
         active_dims = sum([self.reps[rep]*Qs[rep].shape[-1] for rep in Qs.keys()])
         multiplicities = self.reps.values()
         def lazy_Q(array):
-- 
2.43.0


From 6ca3cb624de8c3fdf8f3756b3f5fbf9ce368c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 24/30] fix: default drho accepts complex and lazy Lie algebra
 elements

---
 emlp/reps/representation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 90df7d0..a3b362b 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -39,7 +39,8 @@ class Rep(object):
         
     def drho(self,A): 
         """ Lie Algebra representation of the matrix A of shape (d,d)"""
-        In = jnp.eye(A.shape[0])
+        A = jnp.asarray(densify(A))
+        In = jnp.eye(A.shape[0],dtype=A.dtype)
         return LazyJVP(self.rho,In,A)
 
     def __call__(self,G):
-- 
2.43.0


From 326bb261ea88a2f9d2ce41f9a57c76453b832414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 25/30] fix: inverse transposes of Kronecker products and
 direct sums with dense factors

---
 emlp/reps/linear_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 87cb80f..462f652 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -53,7 +53,7 @@ class LazyKron(LinearOperator):
     def _adjoint(self):
         return LazyKron([hermitian(Mi) for Mi in self.Ms])
     def invT(self):
-        return LazyKron([M.invT() for M in self.Ms])
+        return LazyKron([lazify(M).invT() for M in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(jnp.kron,Ms)
@@ -154,7 +154,7 @@ class LazyDirectSum(LinearOperator):
     def _adjoint(self):
         return LazyDirectSum([hermitian(Mi) for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms],self.multiplicities)
+        return LazyDirectSum([lazify(M).invT() for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From 7b138440c5e5823e5738251d6261bc1c56e93155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 26/30] fix: Kronecker products with a factor without columns
 (basis of a mixed-group product without invariants)

---
 emlp/reps/linear_operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 462f652..75b8d92 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -44,10 +44,10 @@ class LazyKron(LinearOperator):
     def _matvec(self,v):
         return self._matmat(v).reshape(-1)
     def _matmat(self,v):
-        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],-1)
+        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],v.shape[1] if len(v.shape)>1 else 1)
         for i,M in enumerate(self.Ms):
-            ev_front = jnp.moveaxis(ev,i,0)
-            Mev_front = (M@ev_front.reshape(M.shape[-1],-1)).reshape(M.shape[0],*ev_front.shape[1:])
+            ev_front = jnp.moveaxis(ev,i,0) # sizes spelled out, -1 is ambiguous if a factor has no columns
+            Mev_front = (M@ev_front.reshape(M.shape[-1],product(ev_front.shape[1:]))).reshape(M.shape[0],*ev_front.shape[1:])
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-- 
2.43.0


From e279578bba1cabbe2ca947817b3c6ab05b943e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 27/30] fix: scalar multiples of operators accept jax scalars
 (the adjoint of a scaled operator did not)

---
 emlp/reps/linear_operator_base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 562acad..5039e11 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -333,7 +333,7 @@ class LinearOperator(object):
         """
         if isinstance(x, LinearOperator):
             return _ProductLinearOperator(self, x)
-        elif np.isscalar(x):
+        elif _is_scalar(x):
             return _ScaledLinearOperator(self, x)
         else:
             if x.ndim == 1 or x.ndim == 2 and x.shape[1] == 1:
@@ -345,19 +345,19 @@ class LinearOperator(object):
                                  % x)
 
     def __matmul__(self, other):
-        if np.isscalar(other):
+        if _is_scalar(other):
             raise ValueError("Scalar operands are not allowed, "
                              "use '*' instead")
         return self.__mul__(other)
 
     def __rmatmul__(self, other):
-        if np.isscalar(other):
+        if _is_scalar(other):
             raise ValueError("Scalar operands are not allowed, "
                              "use '*' instead")
         return self.__rmul__(other)
 
     def __rmul__(self, x):
-        if np.isscalar(x):
+        if _is_scalar(x):
             return _ScaledLinearOperator(self, x)
         else:
             return NotImplemented
@@ -519,6 +519,10 @@ class _TransposedLinearOperator(LinearOperator):
     def _rmatmat(self, x):
         return np.conj(self.A._matmat(np.conj(x)))
 
+def _is_scalar(x):
+    """ Python and numpy scalars, and arrays without axes (jax scalars) """
+    return np.isscalar(x) or getattr(x, 'ndim', None) == 0
+
 def _get_dtype(operators, dtypes=None):
     if dtypes is None:
         dtypes = []
@@ -600,7 +604,7 @@ class _ScaledLinearOperator(LinearOperator):
     def __init__(self, A, alpha):
         if not isinstance(A, LinearOperator):
             raise ValueError('LinearOperator expected as A')
-        if not np.isscalar(alpha):
+        if not _is_scalar(alpha):
             raise ValueError('scalar expected as alpha')
         dtype = _get_dtype([A], [type(alpha)])
         super(_ScaledLinearOperator, self).__init__(dtype, A.shape)
-- 
2.43.0


From b0c51021027fbe5ec026b6e226eef800627d9e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 28/30] fix: embeddings and products of groups without
 generators know their dimension

---
 emlp/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index acd014e..3080756 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -440,6 +440,7 @@ class Embed(Group):
     d: the dimension in which to embed
     slice: a slice object specifying which dimensions G acts on."""
     def __init__(self,G,d,slice):
+        self.d = d
         lie_algebra,discrete_generators = [[np.asarray(M@jnp.eye(G.d)) for M in gens] for gens in (G.lie_algebra,G.discrete_generators)]
         dtype = np.result_type(float,*lie_algebra,*discrete_generators)
         self.lie_algebra = np.zeros((len(lie_algebra),d,d),dtype)
@@ -471,6 +472,7 @@ def DkeR3(k):
 
 class DirectProduct(Group):
     def __init__(self,G1,G2):
+        self.d = G1.d*G2.d
         I1,I2 = I(G1.d),I(G2.d)
         self.lie_algebra = [LazyKronsum([A1,0*I2]) for A1 in G1.lie_algebra]+[LazyKronsum([0*I1,A2]) for A2 in G2.lie_algebra]
         self.discrete_generators = [LazyKron([M1,I2]) for M1 in G1.discrete_generators]+[LazyKron([I1,M2]) for M2 in G2.discrete_generators]
-- 
2.43.0


From 777e40ebd152b423f3f9df21b1f3889358360d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 29/30] fix: hash of representations that are not in canonical
 order (gating of such sums crashed)

---
 emlp/reps/product_sum_reps.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index eab30f3..23f4ca9 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -45,7 +45,6 @@ class SumRep(Rep):
             and (self.perm==other.perm).all()
 
     def __hash__(self):
-        assert self.canonical
         return hash(tuple(self.reps.items()))
 
     @property
@@ -278,7 +277,6 @@ class ProductRep(Rep):
         return LazyPerm(self.invperm)@canonical_lazy@LazyPerm(self.perm)
 
     def __hash__(self):
-        assert self.canonical, f"Not canonical {repr(self)}? perm {self.perm}"
         return hash(tuple(self.reps.items()))
     def __eq__(self, other): #TODO: worry about non canonical?
         return isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()
-- 
2.43.0


From cecd104c71850d798f5eed0b9f16f7bf2b76a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 30/30] fix: torchified functions with several outputs or with
 non differentiable inputs can be backpropagated

---
 emlp/nn/pytorch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index b41b251..bf88ebe 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -58,11 +58,14 @@ def torchify_fn(function):
         def forward(ctx,*args):
             if any(ctx.needs_input_grad):
                 y,ctx.vjp_fn = vjp(*to_jax(args))#jax.vjp(function,*to_jax(args))
+                ctx.multiple_outputs = isinstance(y,tuple)
                 return to_pytorch(y)
             return to_pytorch(function(*to_jax(args)))
         @staticmethod
         def backward(ctx,*grad_outputs):
-            return to_pytorch(ctx.vjp_fn(*to_jax(grad_outputs)))
+            cotangents = to_jax(grad_outputs)
+            grads = ctx.vjp_fn(cotangents if ctx.multiple_outputs else cotangents[0])
+            return tuple(to_pytorch(g) if needed else None for g,needed in zip(grads,ctx.needs_input_grad))
     return torched_fn.apply #TORCHED #Roasted
 
 
-- 
2.43.0

