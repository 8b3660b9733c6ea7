From 7554b9e614a67ff18226374780a5b5795943cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:00 +0000
Subject: [PATCH 01/14] fix: check all three edges of a triple against the ATM
 cutoff

---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index d692a13..dec3582 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -153,7 +153,7 @@ def get_atm_dispersion(
     ang = torch.where(
         mask_triples
         * (r2ij <= cutoff2)
-        * (r2jk <= cutoff2)
+        * (r2ik <= cutoff2)
         * (r2jk <= cutoff2),
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
-- 
2.43.0


From cfa6459a1f209ebac9c29fd042d4ea5b5b96e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:22 +0000
Subject: [PATCH 02/14] fix: look up functionals case-insensitively as
 documented

---
 src/tad_dftd4/damping/parameters/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 0be7c12..5a165b9 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -88,6 +88,9 @@ def get_params(
     method = DispersionMethod(method)
     table = _load(method)
 
+    if functional is not None:
+        functional = functional.casefold()
+
     if functional in (None, "default"):
         default_section = table["default"]
 
@@ -106,7 +109,7 @@ def get_params(
                 f"Functional '{functional!r}' not found in damping parameters."
             )
 
-        disp_method_section = func_section[functional.casefold()]
+        disp_method_section = func_section[functional]
         if method.value not in disp_method_section:
             raise KeyError(
                 f"Method '{method}' not found in damping parameters "
-- 
2.43.0


From 350f2355e99f90596baebe22806652474113e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:22 +0000
Subject: [PATCH 03/14] fix: resolve the default variant also for the default
 parameters

---
 src/tad_dftd4/damping/parameters/loader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 5a165b9..061fb9a 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -91,6 +91,10 @@ def get_params(
     if functional is not None:
         functional = functional.casefold()
 
+    # Get default variant if not specified
+    if variant is None:
+        variant = table["default"][method.value][0]
+
     if functional in (None, "default"):
         default_section = table["default"]
 
@@ -116,10 +120,6 @@ def get_params(
                 f"for '{functional!r}'."
             )
 
-    # Get default variant if not specified
-    if variant is None:
-        variant = table["default"][method.value][0]
-
     variant_section = disp_method_section[method.value]
     if variant not in variant_section:
         raise KeyError(
-- 
2.43.0


From 0f1aca580045fbf15c239ba4a1864a2fae3c6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:22 +0000
Subject: [PATCH 04/14] fix: use the critical radius in the optimised-power
 damping

---
 src/tad_dftd4/damping/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index f4eefec..7956a91 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -481,7 +481,7 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * distances**order)
+        return rb / (rb * distances**order + ab * radius**order)
 
 
 class ZDamping(Damping):
-- 
2.43.0


From f8632394d6b253d5c3d8eb2db36c7b37f1b2075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:22 +0000
Subject: [PATCH 05/14] fix: do not swap distances and radii in the zero
 damping

---
 src/tad_dftd4/damping/functions.py    | 2 +-
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 7956a91..1b20a4f 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -367,7 +367,7 @@ class ZeroDamping(Damping):
             rs = rs9
 
         # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)
-        t_n = rs * storch.divide(distances, radii)
+        t_n = rs * storch.divide(radii, distances)
 
         f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)
 
diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index dec3582..1daedfe 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -133,10 +133,10 @@ def get_atm_dispersion(
     fdamp = torch.where(
         mask_triples,
         damping_function(
-            r0,
             # dividing by tiny numbers leads to huge numbers, which result in
             # NaN's upon exponentiation in the subsequent step
             torch.where(mask_triples, r1, one),
+            r0,
             order=9,
             alp=alp / 3.0,
             only_damping=True,
-- 
2.43.0


From d54e34e84fd31b43bab8b70a0ee49ecdd3e852fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:57 +0000
Subject: [PATCH 06/14] fix: avoid NaN gradients from masked pairs in the
 damping functions

---
 src/tad_dftd4/dispersion/twobody.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index b168dd2..a297a16 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -133,6 +133,7 @@ def dispersion2(
     """
     dd: DD = {"device": positions.device, "dtype": positions.dtype}
     zero = torch.tensor(0.0, **dd)
+    one = torch.tensor(1.0, **dd)
 
     if cutoff is None:
         cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)
@@ -141,7 +142,7 @@ def dispersion2(
     distances = torch.where(
         mask,
         storch.cdist(positions, positions, p=2),
-        torch.tensor(torch.finfo(positions.dtype).eps, **dd),
+        one,
     )
 
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
@@ -156,6 +157,9 @@ def dispersion2(
     else:
         raise ValueError(f"Unknown radius type: {damping_function.radius_type}")
 
+    # regular filler for masked pairs (avoids NaN's in the backward pass)
+    radii = torch.where(mask, radii, one)
+
     t6 = torch.where(
         mask * (distances <= cutoff),
         damping_function(distances, radii, 6, **param),
-- 
2.43.0


From aa67d03e6c60296fd7bb9761c87460f49dd48535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:57 +0000
Subject: [PATCH 07/14] fix: keep double precision for default Becke-Johnson
 radii

---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 1daedfe..95baae7 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -247,7 +247,7 @@ class RadiiBJMixin:
         r4r2: Tensor,
         rvdw: Tensor,
     ) -> Tensor:
-        dd = self.dd  # type: ignore
+        dd: DD = {"device": r4r2.device, "dtype": r4r2.dtype}
 
         a1 = param.get("a1", torch.tensor(defaults.A1, **dd))
         a2 = param.get("a2", torch.tensor(defaults.A2, **dd))
-- 
2.43.0


From 28aeeb6702509296afe8b79acff93faf157014d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:57 +0000
Subject: [PATCH 08/14] fix: do not round the total charge to the default dtype

---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 62436c5..aa5daa9 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -136,7 +136,7 @@ def dftd4(
     return disp.calculate(
         numbers,
         positions,
-        any_to_tensor(charge),
+        any_to_tensor(charge, **dd),
         param,
         cutoff=cutoff,
         q=q,
-- 
2.43.0


From 43d22998b36367c84661020ac8b30125ad0d29ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:43 +0000
Subject: [PATCH 09/14] fix: support batches in the debug version of the D4S
 model

---
 src/tad_dftd4/model/d4s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 539dab0..0143e9e 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -325,5 +325,5 @@ class D4SDebug(D4SModel):
 
     def _get_wf(self) -> Tensor:
         """Pairwise weighting factor."""
-        s = self.numbers.size(0)
-        return torch.full((s, s), WF_DEFAULT, **self.dd)
+        s = self.numbers.shape
+        return torch.full((*s, s[-1]), WF_DEFAULT, **self.dd)
-- 
2.43.0


From 626a28929a89b8bcff2a1c26f39a458a6297bf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:50 +0000
Subject: [PATCH 10/14] fix: average D4S polarizabilities over the partner
 atoms

---
 src/tad_dftd4/model/d4s.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 0143e9e..e11c555 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -311,9 +311,12 @@ class D4SModel(BaseModel):
 
         a = self._get_alpha()
 
-        # Since we sum over one of the atom dimensions here, we need to
-        # divide by the number of atoms.
-        return einsum("...mnr,...nrw->...mw", gw, a) / nat
+        # The weights of atom `n` depend on its partner `m`. Hence, we average
+        # over all (real) partners, i.e., divide by the number of atoms.
+        return (
+            einsum("...m,...mnr,...nrw->...nw", mask.type(gw.dtype), gw, a)
+            / nat.unsqueeze(-1)
+        )
 
 
 class D4SDebug(D4SModel):
-- 
2.43.0


From dfa6b2b79a4e97ec91a6f139c4b7bae09e82bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:03 +0000
Subject: [PATCH 11/14] fix: return atom-resolved static polarizabilities for
 D4S

---
 src/tad_dftd4/model/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index db64219..52e725a 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -45,7 +45,6 @@ from abc import abstractmethod
 import torch
 from tad_mctc import storch
 from tad_mctc.convert import any_to_tensor
-from tad_mctc.math import einsum
 from tad_mctc.typing import Literal, Tensor, TensorLike, overload
 
 from .. import data
@@ -298,8 +297,8 @@ class BaseModel(TensorLike):
         Tensor
             Polarizabilities of shape ``(..., nat)``.
         """
-        # (..., n, r) * (..., n, r) -> (..., n)
-        return einsum("...nr,...nr->...n", weights, self._get_alpha()[..., 0])
+        # the first frequency is the static limit: (..., n, 23) -> (..., n)
+        return self.get_weighted_pols(weights)[..., 0]
 
     ###################
     # Private methods #
-- 
2.43.0


From 4a9cbd2254b70b44a133d300c04cb5acf8349d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:47 +0000
Subject: [PATCH 12/14] fix: keep atomic numbers integral when converting a
 model

---
 src/tad_dftd4/model/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index 52e725a..c365dd3 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -45,7 +45,7 @@ from abc import abstractmethod
 import torch
 from tad_mctc import storch
 from tad_mctc.convert import any_to_tensor
-from tad_mctc.typing import Literal, Tensor, TensorLike, overload
+from tad_mctc.typing import Literal, Self, Tensor, TensorLike, overload
 
 from .. import data
 from ..utils import trapzd
@@ -304,6 +304,17 @@ class BaseModel(TensorLike):
     # Private methods #
     ###################
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ) -> Self:
+        """Clone with new device and dtype, but keep the numbers integral."""
+        new_obj = super()._clone_tensorlike(device=device, dtype=dtype)
+        new_obj.numbers = self.numbers.to(new_obj.device)
+        return new_obj
+
     def _zeta(self, gam: Tensor, qref: Tensor, qmod: Tensor) -> Tensor:
         """
         Charge scaling function.
-- 
2.43.0


From 6b87f6b297a376c48f5786b6e0e60d6289e97497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:26 +0000
Subject: [PATCH 13/14] fix: reject van der Waals radii that are not pairwise

---
 src/tad_dftd4/dispersion/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 7d4fd34..b4a0eb6 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -380,7 +380,7 @@ class Disp(TensorLike):
 
         if rvdw is None:
             rvdw = self.get_rvdw(numbers)
-        if numbers.shape != rvdw.shape[:-1]:
+        if rvdw.shape != (*numbers.shape, numbers.shape[-1]):
             raise ValueError(
                 f"Shape of van der Waals radii ({rvdw.shape}) is not "
                 f"consistent with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From dfd74b49695d0e770d580a552b59a6c5fc1fbdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:00 +0000
Subject: [PATCH 14/14] fix: convert tensors in the options of a dispersion
 object

---
 src/tad_dftd4/dispersion/base.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index b4a0eb6..3658776 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -28,7 +28,7 @@ from typing import ClassVar
 
 import torch
 from tad_mctc.convert import any_to_tensor
-from tad_mctc.typing import DD, Any, CNFunc, Tensor, TensorLike
+from tad_mctc.typing import DD, Any, CNFunc, Self, Tensor, TensorLike
 
 from ..cutoff import Cutoff
 from ..damping import Damping, Param
@@ -212,6 +212,28 @@ class Disp(TensorLike):
             kw = {} if kw is None else kw.copy()
             self.register(term_cls(**kw))
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ) -> Self:
+        """Clone with new device and dtype, including tensors in the options."""
+        new_obj = super()._clone_tensorlike(device=device, dtype=dtype)
+
+        def convert(value: Any) -> Any:
+            if not isinstance(value, Tensor):
+                return value
+            if not value.is_floating_point():
+                return value.to(new_obj.device)
+            return value.to(**new_obj.dd)
+
+        for name in ("cn_fn_kwargs", "_model_kwargs"):
+            kwargs = {k: convert(v) for k, v in getattr(self, name).items()}
+            setattr(new_obj, name, kwargs)
+
+        return new_obj
+
     def register(self, term: DispTerm) -> None:
         self.terms.append(term)
 
-- 
2.43.0

