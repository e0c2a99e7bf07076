From be3c8fd0f90fec7473dedeb288fa0e17ef7a92c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 01/43] fix: LTI filters conjugated complex coefficients in the
 transposed and df1 forms

lfilter (tdf2, df1, tdf1; ssm and diag_ssm), fir(transpose=True) and
lfilter_zi applied conj() to the coefficients, so that complex filters did not
satisfy y[n] = sum b[k] x[n-k] - sum a[k] y[n-k] and differed from form df2.
---
 philtorch/lti/filtering.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 2078bef..ed817a6 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -127,7 +127,7 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
             b = F.pad(b, (0, n - b.size(-1)), value=0.0)
         if a.size(-1) < n - 1:
             a = F.pad(a, (0, n - 1 - a.size(-1)), value=0.0)
-        A = companion(a).mT.conj()
+        A = companion(a).mT
         B = b[..., 1:] - b[..., :1] * a
     else:
         raise ValueError(
@@ -180,7 +180,7 @@ def fir(
     if transpose:
         y = F.conv_transpose1d(
             x.unsqueeze(0),
-            b.unsqueeze(1).conj(),
+            b.unsqueeze(1),
             stride=1,
             groups=B,
         ).squeeze(0)
@@ -307,10 +307,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -324,8 +324,8 @@ def _ssm_lfilter(
         case "tdf1":
             zi = x.new_zeros((x.size(0), A.size(-1)))
             filt = chain_functions(
-                partial(state_space_recursion, A.mT.conj(), zi, out_idx=0, **kwargs),
-                partial(fir, b.conj().broadcast_to((x.size(0), -1)), transpose=True),
+                partial(state_space_recursion, A.mT, zi, out_idx=0, **kwargs),
+                partial(fir, b.broadcast_to((x.size(0), -1)), transpose=True),
             )
         case _:
             raise ValueError(f"Unknown filter form: {form}")
@@ -385,10 +385,10 @@ def _diag_ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 diag_state_space,
-                A=A.mT.conj(),
-                B=B.conj(),
+                A=A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
-- 
2.43.0


From 66414128dcfcbe44ce0ea6ed60eb007a56e5e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 02/43] fix: LPV filters conjugated complex coefficients in the
 transposed forms

lfilter (tdf2, tdf1), fir(transpose=True) and allpole(transpose=True) applied
conj() to the coefficients; the ssm and torchlpc backends disagreed.
---
 philtorch/lpv/filtering.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 277b9c9..510233c 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -57,7 +57,7 @@ def fir(
     if transpose:
         shifted_b = diag_shift(b, discard_end=not return_zf)
         y = torch.linalg.vecdot(
-            shifted_b.flip(2),
+            shifted_b.flip(2).conj(),
             F.pad(
                 x,
                 (shifted_b.size(2) - 1, 0 if not return_zf else shifted_b.size(2) - 1),
@@ -121,7 +121,7 @@ def allpole(
         return_zf = True
 
     if transpose:
-        a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
+        a = diag_shift(a, offset=1, discard_end=not return_zf)
         x = torch.cat(
             [zi + x[:, : a.size(2)], x[:, a.size(2) :]]
             + ([torch.zeros_like(zi)] if return_zf else []),
@@ -322,10 +322,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -355,13 +355,13 @@ def _ssm_lfilter(
                         if extension_backend_indicator(x, A.size(-1))
                         else state_space_recursion
                     ),
-                    A.mT.conj(),
+                    A.mT,
                     zi,
                     out_idx=0,
                     **kwargs,
                 ),
                 partial(
-                    fir, b.conj().broadcast_to((x.size(0), -1, -1)), transpose=True
+                    fir, b.broadcast_to((x.size(0), -1, -1)), transpose=True
                 ),
             )
         case _:
-- 
2.43.0


From 5e84ef3e92e6c66dd5dc74ac53bff0a0c57db266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 03/43] fix: lpv filters returned a wrong shape when batch size
 equals signal length

C of shape (B, N, M) and D of shape (B, N) were taken for time-varying
matrices (N, _, M) and (N, _) when B == N, so lfilter (df2, tdf2) returned a
(B, N, N) tensor.
---
 philtorch/lpv/ssm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index c37294a..319202c 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -502,16 +502,16 @@ def state_space(
                 Dx = torch.linalg.vecdot(D.conj(), x)
             case (D_batch, F) if D_batch == batch_size and F == features:
                 Dx = torch.linalg.vecdot(D.conj().unsqueeze(1), x)
-            case (DN, _) if DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
-                Dx = D * x.unsqueeze(-1)
             case (D_batch, DN) if D_batch == batch_size and DN == N:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size, N}, got {x.shape}"
                 Dx = D * x
+            case (DN, _) if DN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
+                Dx = D * x.unsqueeze(-1)
             case (D_batch, _) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
@@ -556,10 +556,10 @@ def state_space(
                 Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)
             case (_, CM) if CM == M:
                 Ch = h @ C.T
-            case (CN, _, CM) if CN == N and CM == M:
-                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, CN, CM) if C_batch == batch_size and CM == M and CN == N:
                 Ch = torch.linalg.vecdot(C.conj(), h)
+            case (CN, _, CM) if CN == N and CM == M:
+                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, _, CM) if C_batch == batch_size and CM == M:
                 Ch = h @ C.mT
             case (C_batch, CN, _, CM) if C_batch == batch_size and CM == M and CN == N:
-- 
2.43.0


From cc2def67d2d055d6c9e74d91919fe221878a5d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 04/43] fix: lpv lfilter form tdf1 on the ssm backend applied
 coefficients one step late

With time-varying coefficients it disagreed with the torchlpc backend and with
the transposed all-pole structure (and with tdf2).
---
 philtorch/lpv/filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 510233c..2097399 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -355,7 +355,8 @@ def _ssm_lfilter(
                         if extension_backend_indicator(x, A.size(-1))
                         else state_space_recursion
                     ),
-                    A.mT,
+                    # the feedback taps read the coefficients of the previous step
+                    A.mT.roll(1, dims=-3),
                     zi,
                     out_idx=0,
                     **kwargs,
-- 
2.43.0


From b555742d5fc04a01d21847fc79b2a8ceb3bae4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 05/43] fix: lpv fir/allpole final state for signals shorter
 than the order

The transposed forms failed or returned wrong shapes when the signal was
shorter than the filter order, and allpole returned a truncated final state, so
chunked filtering with short chunks was impossible.
---
 philtorch/lpv/filtering.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 2097399..65e9084 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -64,17 +64,11 @@ def fir(
             ).unfold(1, shifted_b.size(2), 1),
         )
         if return_zf:
-            y, zf = torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
-            return (
-                torch.cat(
-                    [
-                        y[..., : b.size(2) - 1] + zi,
-                        y[..., b.size(2) - 1 :],
-                    ],
-                    dim=-1,
-                ),
-                zf,
+            y = torch.cat(
+                [y[:, : b.size(2) - 1] + zi, y[:, b.size(2) - 1 :]],
+                dim=1,
             )
+            return torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
         return y
 
     unfolded_x = torch.cat([zi.flip(1), x], dim=1).unfold(1, b.size(2), 1)
@@ -122,17 +116,18 @@ def allpole(
 
     if transpose:
         a = diag_shift(a, offset=1, discard_end=not return_zf)
-        x = torch.cat(
-            [zi + x[:, : a.size(2)], x[:, a.size(2) :]]
-            + ([torch.zeros_like(zi)] if return_zf else []),
-            dim=1,
-        )
+        if return_zf:
+            x = F.pad(x, (0, a.size(2)))
+            x = torch.cat([zi + x[:, : a.size(2)], x[:, a.size(2) :]], dim=1)
         y = sample_wise_lpc(x, a)
         if return_zf:
             return torch.split_with_sizes(y, [T, a.size(2)], 1)
         return y
 
-    return sample_wise_lpc(x, a, zi=zi, return_zf=return_zf)
+    y = sample_wise_lpc(x, a, zi=zi)
+    if return_zf:
+        return y, torch.cat([zi.flip(1), y], dim=1)[:, T:].flip(1)
+    return y
 
 
 def lfilter(
-- 
2.43.0


From a6634260ed7572c65431d5d8a6b3dbde3e374958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 06/43] fix: diag_shift discarded everything for one
 coefficient and no offset

y[..., :-0] is empty, so lpv fir(transpose=True) failed for order 0.
---
 philtorch/lpv/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lpv/utils.py b/philtorch/lpv/utils.py
index ccbb084..b6e5e9f 100644
--- a/philtorch/lpv/utils.py
+++ b/philtorch/lpv/utils.py
@@ -29,5 +29,5 @@ def diag_shift(coef: Tensor, offset: int = 0, discard_end: bool = False) -> Tens
         .unflatten(-1, (M, T + M + offset - 1))
     )
     if discard_end:
-        y = y[..., : -(M - 1 + offset)]
+        y = y[..., :T]
     return y.mT
-- 
2.43.0


From 22a0881ca0c2b7c0a602d5b54943926908d14cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 07/43] fix: matrices_cumdot multiplied in the wrong order for
 composite lengths

---
 philtorch/mat.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 8fe0549..2b7ae2a 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -147,7 +147,7 @@ def matrices_cumdot(A: Tensor) -> Tensor:
     leading_dims = len(A.shape) - 3
     factors = factorint(M, multiple=True)[::-1]
     unfolded_A = A.unflatten(-3, factors)
-    return _mat_cumdot_runner(unfolded_A, leading_dims).flatten(leading_dims, -3)
+    return _mat_cumdot_runner(unfolded_A, leading_dims)
 
 
 def _mat_cumdot_runner(A: Tensor, leading_dims: int) -> Tensor:
@@ -155,12 +155,14 @@ def _mat_cumdot_runner(A: Tensor, leading_dims: int) -> Tensor:
     if A.dim() == leading_dims + 3:
         return accums
 
+    # running products of whole blocks, shape (..., number of blocks, N, N)
     higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims)
-    tmp = accums[..., 1:, :-1, :, :] @ higher_powers[..., :-1, None, :, :]
+    accums = accums.flatten(leading_dims, -4)
+    tmp = higher_powers[..., :-1, None, :, :] @ accums[..., 1:, :-1, :, :]
     return torch.cat(
         [
             accums[..., :1, :, :, :],
             torch.cat([tmp, higher_powers[..., 1:, None, :, :]], dim=-3),
         ],
         dim=-4,
-    )
+    ).flatten(-4, -3)
-- 
2.43.0


From 67f5a3abfd2b8d601e733ca0127c07f5ac036391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:14 +0000
Subject: [PATCH 08/43] fix: state_space refused a scalar D of shape (1,) for
 multi-channel input when the batch size is one

---
 philtorch/lpv/ssm.py | 4 ++--
 philtorch/lti/ssm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 319202c..36f4cd9 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -481,6 +481,8 @@ def state_space(
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (DN,) if DN == N:
                 assert (
                     x.dim() == 2
@@ -491,8 +493,6 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 9bccf7f..1e32eff 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -535,13 +535,13 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (D_batch,) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
-- 
2.43.0


From 21497e0f324fcbf890c55952d2d28f6d5423eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 09/43] fix: comb_filter called the compiled recurrence exactly
 when the extension is absent

---
 philtorch/lti/filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index ed817a6..36d1970 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -56,11 +56,7 @@ def comb_filter(
         zi = torch.zeros_like(a)
 
     y = (
-        (
-            linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
-            if EXTENSION_LOADED
-            else LTIRecurrence.apply(-a, zi, folded_x.flatten(0, 1))
-        )
+        linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
         .unflatten(0, (-1, delay))
         .mT.flatten(1, 2)
     )
-- 
2.43.0


From 923818be7620eebd7d002525834109936f22a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 10/43] fix: comb_filter with unit delay dropped the final
 state

---
 philtorch/lti/filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 36d1970..7363b2a 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -34,9 +34,10 @@ def comb_filter(
         ), "The first dimension of a must match the batch size of x."
 
     if delay == 1:
-        return linear_recurrence(
+        y = linear_recurrence(
             -a, torch.zeros_like(a) if zi is None else zi.squeeze(-1), x, **kwargs
         )
+        return y if zi is None else (y, y[:, -1:])
 
     remainder = x.size(1) % delay
     if remainder != 0:
-- 
2.43.0


From 739dae5a1b0a25a89c54eeb6d265976c9233ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 11/43] fix: comb_filter refused the documented (1,)
 coefficient for larger batches

---
 philtorch/lti/filtering.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 7363b2a..3573873 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -29,9 +29,11 @@ def comb_filter(
     assert x.dim() == 2, "Input signal x must be 2D."
     assert delay >= 0, "Delay must be non-negative."
     if a.dim() == 1:
-        assert a.size(0) == x.size(
-            0
-        ), "The first dimension of a must match the batch size of x."
+        assert a.size(0) in (
+            1,
+            x.size(0),
+        ), "The first dimension of a must be 1 or match the batch size of x."
+        a = a.expand(x.size(0))
 
     if delay == 1:
         y = linear_recurrence(
-- 
2.43.0


From e47a25d989d971cdf8581164a2df696aded1870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 12/43] fix: comb_filter returned a truncated final state for
 signals shorter than the delay

---
 philtorch/lti/filtering.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 3573873..d337aaf 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -8,8 +8,7 @@ from .ssm import state_space, state_space_recursion, diag_state_space
 from ..mat import companion
 from ..utils import chain_functions
 from ..poly import polydiv
-from .recur import linear_recurrence, LTIRecurrence
-from .. import EXTENSION_LOADED
+from .recur import linear_recurrence
 
 
 def comb_filter(
@@ -66,7 +65,11 @@ def comb_filter(
     if remainder != 0:
         y = y[:, : -(delay - remainder)]
     if return_zf:
-        return y, y[:, -delay:].flip(1)
+        zf = y[:, -delay:].flip(1)
+        if zf.size(1) < delay:
+            past = zi.unflatten(0, (-1, delay)).flip(1)
+            zf = torch.cat([zf, past[:, : delay - zf.size(1)]], dim=1)
+        return y, zf
     return y
 
 
-- 
2.43.0


From bef665663b2c567269a9e4bcc1a42c569b865af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 13/43] fix: transposed fir for order zero and for signals
 shorter than the order

---
 philtorch/lti/filtering.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index d337aaf..0918ee9 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -187,11 +187,9 @@ def fir(
             groups=B,
         ).squeeze(0)
         if zi is not None:
-            zf = y[:, -M:]
-            y = y[:, :-M]
-            y = torch.cat([zi + y[:, :M], y[:, M:]], dim=1)
-            return y, zf
-        return y[:, :-M]
+            y = y + F.pad(zi, (0, N))
+            return y[:, :N], y[:, N:]
+        return y[:, :N]
 
     if zi is None:
         zf = None
-- 
2.43.0


From 780a603c4e0f04c6ec6b2ab02214599184041e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 14/43] fix: direct fir returned the whole signal as final
 state for order zero

---
 philtorch/lti/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 0918ee9..dfa46c6 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -196,7 +196,7 @@ def fir(
         padded_x = F.pad(x, (M, 0))
     else:
         padded_x = torch.cat([zi.flip(1), x], dim=1)
-        zf = padded_x[:, -M:].flip(1)
+        zf = padded_x[:, N:].flip(1)
 
     y = F.conv1d(
         padded_x.unsqueeze(0),
-- 
2.43.0


From 96b51d272dc6172c66e790be1ec08a3523eaa21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 15/43] fix: lfilter_zi ignored the numerator order for the df2
 form

---
 philtorch/lti/filtering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index dfa46c6..0544c14 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -118,6 +118,8 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
     assert a.dim() >= 1, "Denominator coefficients a must be at least 1D."
 
     if not transpose:
+        if b is not None and b.size(-1) > a.size(-1) + 1:
+            a = F.pad(a, (0, b.size(-1) - a.size(-1) - 1), value=0.0)
         n = a.size(-1) + 1
         A = companion(a)
         B = a.new_zeros(n - 1)
-- 
2.43.0


From fd9f8e0e1e0752d32708265b0c6b122c32adbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 16/43] fix: filtfilt unpacked the output batch as (output,
 state) for the df1 and tdf1 forms

---
 philtorch/lti/filtering.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 0544c14..9b32af9 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -475,10 +475,15 @@ def filtfilt(
     zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
     x0 = ext[..., :1]
 
-    y, _ = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
-    y0 = y[..., -1:]
+    if form in ("df1", "tdf1"):
+        # these forms have no state, see `lfilter`
+        y = lfilter(b, a, ext, form=form, **kwargs)
+        y = lfilter(b, a, y.flip(-1), form=form, **kwargs)
+    else:
+        y, _ = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
+        y0 = y[..., -1:]
 
-    y, _ = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
+        y, _ = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
 
     if edge > 0:
         y = y[..., edge:-edge]
-- 
2.43.0


From 825d5197a5f33a683176787cc656ef3bccf161dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 17/43] fix: lfiltic crashed for all-pole filters (numerator of
 length one)

---
 philtorch/lti/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 9b32af9..452de5e 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -94,7 +94,7 @@ def lfiltic(b: Tensor, a: Tensor, y: Tensor, x: Optional[Tensor] = None) -> Tens
     if x is None:
         x = b.new_zeros(m)
 
-    b_mat = F.pad(b[..., 1:], (0, m - 1), value=0.0).unfold(-1, m, 1)
+    b_mat = F.pad(b[..., 1:], (0, max(m - 1, 0)), value=0.0).unfold(-1, m, 1)
     a_mat = F.pad(a, (0, n - 1), value=0.0).unfold(-1, n, 1)
     zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
     zi_a = (a_mat @ y.unsqueeze(-1)).squeeze(-1)
-- 
2.43.0


From a2af51140123737ae8d2255f2292c8bea90d5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 18/43] fix: vandermonde refused the documented batched poles

---
 philtorch/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 2b7ae2a..ffcf84b 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -76,7 +76,7 @@ def vandermonde(poles: Tensor) -> Tensor:
     """
     if poles.size(-1) == 1:
         return torch.ones_like(poles).unsqueeze(-1)
-    return torch.vander(poles).mT
+    return torch.linalg.vander(poles).flip(-1).mT
 
 
 def matrix_power_accumulate(A: Tensor, n: int) -> Tensor:
-- 
2.43.0


From f5d2e3e233805aa8d3187ef42fc4acb0d7015896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 19/43] fix: diag_state_space dropped the imaginary part of the
 state for complex inputs and a real output matrix

---
 philtorch/lti/ssm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 1e32eff..c4a3070 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -729,6 +729,7 @@ def diag_state_space(
         zi = zi.unsqueeze(0).expand(batch_size, -1)
 
     x_orig = x
+    real_system = not any(t is not None and t.is_complex() for t in (A, B, x, zi))
     if Vinv.is_complex():
         if not zi.is_complex():
             zi = zi + 0j  # Ensure zi is complex if Vinv is complex
@@ -823,7 +824,7 @@ def diag_state_space(
             dim=1,
         )
 
-    if C is not None and not C.is_complex():
+    if real_system and C is not None and not C.is_complex():
         h = h.real
         zf = zf.real if return_zf else None
 
-- 
2.43.0


From 9a47b9706956335346eeabab2b37ae91e3bdb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 20/43] fix: polydiv refused divisors longer than the dividend
 and single dividends with batched divisors

---
 philtorch/poly.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/philtorch/poly.py b/philtorch/poly.py
index 36e3532..10c35c7 100644
--- a/philtorch/poly.py
+++ b/philtorch/poly.py
@@ -23,8 +23,10 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     # w has the common type
     m = u.size(-1) - 1
     n = v.size(-1) - 1
+    if m < n:
+        return u[..., :0], u.clone()
     scale = v[..., 0].reciprocal()
-    r = u.clone()
+    r = u.expand(*torch.broadcast_shapes(u.shape[:-1], v.shape[:-1]), -1).clone()
     q = []
     for k in range(0, m - n + 1):
         d = scale * r[..., k]
-- 
2.43.0


From 850aefa0b6623806d8b8638242f02c3cf07041df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 21/43] fix: diag_ssm back end refused single filters with a
 numerator longer than the denominator

---
 philtorch/lti/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 452de5e..8e0c158 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -350,12 +350,12 @@ def _diag_ssm_lfilter(
         zi = None
         if delayed_form:
             q, r = polydiv(b, F.pad(a, (1, 0), value=1.0))
-            direct_filt = partial(fir, q)
+            direct_filt = partial(fir, q.broadcast_to((x.size(0), -1)))
             delay = b.size(-1) - a.size(-1)
             b = r
         else:
             rev_q, rev_r = polydiv(b.flip(-1), F.pad(a.flip(-1), (0, 1), value=1.0))
-            direct_filt = partial(fir, rev_q.flip(-1))
+            direct_filt = partial(fir, rev_q.flip(-1).broadcast_to((x.size(0), -1)))
             delay = 0
             b = rev_r.flip(-1)
     else:
-- 
2.43.0


From e0582fca2b268be2a71c599a8caff37958772671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 22/43] fix: diag_ssm back end in delayed form refused signals
 shorter than the delay

---
 philtorch/lti/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 8e0c158..a47e9f9 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -404,7 +404,7 @@ def _diag_ssm_lfilter(
     y = results
 
     if delay > 0:
-        y = F.pad(y[:, :-delay], (delay, 0))
+        y = F.pad(y, (delay, 0))[:, : x.size(1)]
 
     if direct_filt is not None:
         y = y + direct_filt(x)
-- 
2.43.0


From a5cd1e3e3ca3cbf8dc356a621730239a2b610a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 23/43] fix: prototype polyval ignored the shape of the
 evaluation points for constant polynomials

---
 philtorch/prototype/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 4a715d6..97103b4 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -122,7 +122,7 @@ def polyval(p: Tensor, x: Tensor) -> Tensor:
     """
     p = trim_zeros(p)
     if p.numel() == 1:
-        return p
+        return p[0] + torch.zeros_like(x)
     return reduce(lambda y, pv: y * x + pv, p.unbind(0))
 
 
-- 
2.43.0


From 1a87423d8d96b7e5cbbdc32e553a713ceb89fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 24/43] fix: prototype roots failed for monomials and returned
 real empty tensors

---
 philtorch/prototype/poly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 97103b4..71df035 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -31,11 +31,11 @@ def roots(p: Tensor) -> Tensor:
         raise ValueError("Input must be a rank-1 array.")
 
     # find non-zero array entries
-    non_zero = torch.nonzero(p).squeeze()
+    non_zero = torch.nonzero(p).view(-1)
 
     # Return an empty array if polynomial is all zeros
     if non_zero.numel() == 0:
-        return torch.tensor([])
+        return p.new_empty(0, dtype=p.dtype.to_complex())
 
     # find the number of trailing zeros -- this is the number of roots at 0.
     trailing_zeros = p.numel() - non_zero[-1] - 1
@@ -51,7 +51,7 @@ def roots(p: Tensor) -> Tensor:
         A[0, :] = -p[1:] / p[0]
         roots = torch.linalg.eigvals(A)
     else:
-        roots = torch.tensor([])
+        roots = p.new_empty(0, dtype=p.dtype.to_complex())
 
     # tack any zeros onto the back of the array
     if trailing_zeros > 0:
-- 
2.43.0


From 88fa7dde5d190e204d00947a769632195244ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 25/43] fix: sos2pfe returned nan for simple poles (complex
 zero to the power zero)

---
 philtorch/prototype/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index bd239ed..4b81b1f 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -226,8 +226,8 @@ def sos2pfe(
         mask[range(len(non_repeated_poles)), torch.where(~repeated_mask)[0]] = True
 
         denominator_val = expsumlog(
-            (non_repeated_poles[:, None] - unique_poles)
-            ** torch.where(mask, 0, multiplicity)
+            torch.where(mask, 1, non_repeated_poles[:, None] - unique_poles)
+            ** multiplicity
         )
         non_repeated_residues = numerator_val / denominator_val
 
-- 
2.43.0


From 0d53310d2f100e480f2b283e26dd153a0dbce6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 26/43] fix: sos2pfe returned nan for sections with a negative
 gain

---
 philtorch/prototype/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index 4b81b1f..55a5ac0 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -184,7 +184,7 @@ def sos2pfe(
     a = a[:, 1:] / a[:, :1]
 
     expsumlog = lambda x: x.log().sum(dim=-1).exp()
-    G0 = expsumlog(k0)
+    G0 = k0.prod(dim=-1)
 
     a1, a2 = a[:, 0], a[:, 1]
     b1, b2 = b[:, 0], b[:, 1]
-- 
2.43.0


From babe6d2064e29d17468049bc2521b9e6f0354f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 27/43] fix: sos2pfe paired the complex-root flags with the
 wrong sections

---
 philtorch/prototype/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index 55a5ac0..0fdfc84 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -202,7 +202,7 @@ def sos2pfe(
         ).flatten()
         * 0.5
     )
-    is_complex_root_ext = is_complex_root.repeat(2)
+    is_complex_root_ext = is_complex_root.repeat_interleave(2)
     unique_poles, multiplicity, is_complex = unique_roots(
         all_roots, tol=tol, rtype=rtype, is_complex=is_complex_root_ext
     )
-- 
2.43.0


From 06ecacf7303c62e35ca6dc0799f48cd690bdd27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 28/43] fix: sos2pfe failed when all repeated poles are complex

---
 philtorch/prototype/signal.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index 0fdfc84..ba0485e 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -301,17 +301,28 @@ def sos2pfe(
             repeated_poles[~sub_complex_mask].real.repeat_interleave(
                 multiplicity[repeated_mask][~sub_complex_mask]
             ),
-            torch.stack(
-                sum(
-                    [repeated_residues[i] for i in torch.where(~sub_complex_mask)[0]],
-                    [],
+            (
+                torch.stack(
+                    sum(
+                        [
+                            repeated_residues[i]
+                            for i in torch.where(~sub_complex_mask)[0]
+                        ],
+                        [],
+                    )
+                ).real
+                if torch.any(~sub_complex_mask)
+                else G0.new_empty(0)
+            ),
+            (
+                torch.cat(
+                    [
+                        torch.arange(mult.item(), 0, -1, device=repeated_poles.device)
+                        for mult in multiplicity[repeated_mask][~sub_complex_mask]
+                    ],
                 )
-            ).real,
-            torch.cat(
-                [
-                    torch.arange(mult.item(), 0, -1, device=repeated_poles.device)
-                    for mult in multiplicity[repeated_mask][~sub_complex_mask]
-                ],
+                if torch.any(~sub_complex_mask)
+                else multiplicity.new_empty(0)
             ),
         )
         cplx_repeated = (
-- 
2.43.0


From b01ceab564e5ac4dbf5ad77d95ff4329396ba1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:25 +0000
Subject: [PATCH 29/43] fix: sos2pfe kept the wrong half of repeated complex
 poles

---
 philtorch/prototype/signal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index ba0485e..e8dc9ce 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -372,9 +372,10 @@ def sos2pfe(
     )
 
     assert len(cplx_poles) % 2 == 0, "Complex poles must be even."
-    cplx_poles = cplx_poles[::2]
-    cplx_residues = cplx_residues[::2]
-    cplx_powers = cplx_powers[::2]
+    upper = cplx_poles.imag > 0
+    cplx_poles = cplx_poles[upper]
+    cplx_residues = cplx_residues[upper]
+    cplx_powers = cplx_powers[upper]
 
     return (
         (real_residues, cplx_residues),
-- 
2.43.0


From 6a7e322f0e2add5ad161f858ad5e1e0b850c2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 30/43] fix: polydiv could not be differentiated with respect
 to the divisor (in-place update of a saved tensor)

---
 philtorch/poly.py           | 2 +-
 philtorch/prototype/poly.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/poly.py b/philtorch/poly.py
index 10c35c7..c903740 100644
--- a/philtorch/poly.py
+++ b/philtorch/poly.py
@@ -29,7 +29,7 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     r = u.expand(*torch.broadcast_shapes(u.shape[:-1], v.shape[:-1]), -1).clone()
     q = []
     for k in range(0, m - n + 1):
-        d = scale * r[..., k]
+        d = scale * r[..., k].clone()
         q.append(d)
         r[..., k : k + n + 1] -= d.unsqueeze(-1) * v
 
diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 71df035..d3e916f 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -79,7 +79,7 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     q = u.new_zeros(max(m - n + 1, 1))
     r = u.clone()
     for k in range(0, m - n + 1):
-        d = scale * r[k]
+        d = scale * r[k].clone()
         q[k] = d
         r[k : k + n + 1] -= d * v
     while torch.abs(r[0]) < 1e-8 and (r.shape[-1] > 1):
-- 
2.43.0


From 87a9d4df797dc86b2adf611eab07b28c673aa594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 31/43] fix: cubic_spline failed for factors where the step 1/m
 rounds (49, 98, 103, ...)

---
 philtorch/lti/interp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/interp.py b/philtorch/lti/interp.py
index d4b784b..b85016d 100644
--- a/philtorch/lti/interp.py
+++ b/philtorch/lti/interp.py
@@ -121,9 +121,8 @@ def cubic_spline(x: Tensor, m: int, scipy_padding: bool = False, **kwargs) -> Te
 
     c = cspline(x, scipy_padding=scipy_padding, **kwargs)
 
-    kernel_idx = torch.arange(-2, 2, 1 / m, device=x.device, dtype=x.dtype).reshape(
-        4, m
-    )
+    kernel_idx = torch.arange(4 * m, device=x.device, dtype=x.dtype).reshape(4, m)
+    kernel_idx = kernel_idx / m - 2
     kernel = _cubic_spline_kernel(kernel_idx).flip(0).T
 
     interped = F.conv1d(
-- 
2.43.0


From df426599a157232d8990e90094e99edc8c014344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 32/43] fix: scalar recurrence of length-1 signals could not be
 differentiated twice

---
 philtorch/__init__.py  | 15 ++++-----------
 philtorch/lti/recur.py | 15 ++++-----------
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 7ea621d..037632c 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -118,17 +118,10 @@ def _lti_recur_backward(
     a, init, out = ctx.saved_tensors
     grad_a = grad_x = grad_init = None
 
-    bp_init = grad_out[:, -1]
-    flipped_grad_x = torch.cat(
-        [
-            bp_init.unsqueeze(1),
-            torch.ops.philtorch.lti_recur(
-                a.conj_physical(),
-                bp_init,
-                grad_out[:, :-1].flip(1),
-            ),
-        ],
-        dim=1,
+    flipped_grad_x = torch.ops.philtorch.lti_recur(
+        a.conj_physical(),
+        torch.zeros_like(grad_out[:, -1]),
+        grad_out.flip(1),
     )
 
     if ctx.needs_input_grad[1]:
diff --git a/philtorch/lti/recur.py b/philtorch/lti/recur.py
index 6ac3094..c47a7bb 100644
--- a/philtorch/lti/recur.py
+++ b/philtorch/lti/recur.py
@@ -29,17 +29,10 @@ class LTIRecurrence(Function):
         a, init, out = ctx.saved_tensors
         grad_a = grad_x = grad_init = None
 
-        bp_init = grad_out[:, -1]
-        flipped_grad_x = torch.cat(
-            [
-                bp_init.unsqueeze(1),
-                LTIRecurrence.apply(
-                    a.conj_physical(),
-                    bp_init,
-                    grad_out[:, :-1].flip(1),
-                ),
-            ],
-            dim=1,
+        flipped_grad_x = LTIRecurrence.apply(
+            a.conj_physical(),
+            torch.zeros_like(grad_out[:, -1]),
+            grad_out.flip(1),
         )
 
         if ctx.needs_input_grad[1]:
-- 
2.43.0


From afc49bede99d733a1df48b626418732db1557b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 33/43] fix: compiled recurrences read out of bounds when the
 sizes of A and x disagree

---
 philtorch/csrc/host_lti_recur.cpp  |  1 +
 philtorch/csrc/host_lti_recurN.cpp |  4 ++++
 philtorch/csrc/host_recur2.cpp     |  6 ++++++
 philtorch/csrc/host_recurN.cpp     | 12 ++++++++++++
 4 files changed, 23 insertions(+)

diff --git a/philtorch/csrc/host_lti_recur.cpp b/philtorch/csrc/host_lti_recur.cpp
index 96615f9..06ce7d6 100644
--- a/philtorch/csrc/host_lti_recur.cpp
+++ b/philtorch/csrc/host_lti_recur.cpp
@@ -48,6 +48,7 @@ at::Tensor lti_recur_cpu_impl(const at::Tensor &a,
                 "A must have the same scalar type as input");
     TORCH_CHECK(a.dim() <= 1, "A must be a vector or a scalar");
     TORCH_CHECK(zi.dim() == 1, "zi must be a vector");
+    TORCH_CHECK(x.dim() == 2, "x must be a 2D tensor");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 2ba902e..fc235e6 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -69,10 +69,14 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 2 || A.dim() == 3, "A must be a 2D or 3D tensor");
+    TORCH_CHECK(x.dim() == 3 && zi.dim() == 2,
+                "x must be a 3D tensor and zi a 2D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.dim() == 2 || A.size(0) == x.size(0),
+                "Batch size of A must match batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/host_recur2.cpp b/philtorch/csrc/host_recur2.cpp
index 2707dae..d1efb16 100644
--- a/philtorch/csrc/host_recur2.cpp
+++ b/philtorch/csrc/host_recur2.cpp
@@ -117,9 +117,15 @@ at::Tensor mat_recur_second_order_cpu_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3 && zi.dim() == 2,
+                "x must be a 3D tensor and zi a 2D tensor");
     TORCH_CHECK(x.size(2) == 2, "Input x must have a last dimension of size 2");
     TORCH_CHECK(A.size(-1) == 2 && A.size(-2) == 2,
                 "Last two dimensions of A must be of size 2");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Number of time steps of A must match x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "Batch size of A must match batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 6c397c9..c8daa52 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -193,10 +193,16 @@ at::Tensor mat_recur_N_order_cpu_impl(const at::Tensor &A, const at::Tensor &zi,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3 && zi.dim() == 2,
+                "x must be a 3D tensor and zi a 2D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Number of time steps of A must match x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "Batch size of A must match batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
@@ -242,10 +248,16 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3 && zi.dim() == 2,
+                "x must be a 3D tensor and zi a 2D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Number of time steps of A must match x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "Batch size of A must match batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
-- 
2.43.0


From 589c74478086fd4215ae2a4b78146294bd257360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:17 +0000
Subject: [PATCH 34/43] fix: compiled recurrences overflowed 32-bit offsets for
 more than 2^31 elements

---
 philtorch/csrc/host_lti_recur.cpp  | 12 ++++++------
 philtorch/csrc/host_lti_recurN.cpp | 12 ++++++------
 philtorch/csrc/host_recurN.cpp     | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/philtorch/csrc/host_lti_recur.cpp b/philtorch/csrc/host_lti_recur.cpp
index 06ce7d6..152ee6c 100644
--- a/philtorch/csrc/host_lti_recur.cpp
+++ b/philtorch/csrc/host_lti_recur.cpp
@@ -2,19 +2,19 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_linear_recurrence(int B, int T,
+void host_lti_batch_linear_recurrence(int64_t B, int64_t T,
                                       const scalar_t *a,
                                       scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t a_b = a[b];
         scalar_t *out_b = out + b * T;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a_b * out_b[t - 1];
         }
@@ -22,17 +22,17 @@ void host_lti_batch_linear_recurrence(int B, int T,
 }
 
 template <typename scalar_t>
-void host_lti_shared_linear_recurrence(int B, int T,
+void host_lti_shared_linear_recurrence(int64_t B, int64_t T,
                                        const scalar_t a,
                                        scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *out_b = out + b * T;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a * out_b[t - 1];
         }
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index fc235e6..3a576c5 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -2,20 +2,20 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_mat_recur_N_order(int B, int T, int N,
+void host_lti_batch_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
@@ -33,18 +33,18 @@ void host_lti_batch_mat_recur_N_order(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_lti_share_mat_recur_N_order(int B, int T, int N,
+void host_lti_share_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index c8daa52..4ce6cf8 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -79,20 +79,20 @@ void host_batch_mat_recur_N_order(const scalar_t *Ax, scalar_t *out,
 }
 
 template <typename scalar_t>
-void host_batch_mat_recur_N_order_omp(int B, int T, int N,
+void host_batch_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * T * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A_b + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
@@ -111,18 +111,18 @@ void host_batch_mat_recur_N_order_omp(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_share_mat_recur_N_order_omp(int B, int T, int N,
+void host_share_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
-- 
2.43.0


From d96f1be075eb003b7469afcffc9a0b0eccd7642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:48 +0000
Subject: [PATCH 35/43] fix: abstract execution of the compiled recurrences
 reported the strides of the input instead of contiguous ones

---
 philtorch/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 037632c..e348b5c 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -167,7 +167,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::recurN")
     def _(A, zi, x):
@@ -188,7 +188,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recur2")
     def _(A, zi, x):
@@ -204,7 +204,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recurN")
     def _(A, zi, x):
@@ -221,7 +221,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
@@ -234,7 +234,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 1D, its length must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     torch.library.register_autograd(
         "philtorch::recur2",
-- 
2.43.0


From 2b2e248eb2a038c1929f5dca55325f1408413009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 36/43] fix: abstract execution accepted ranks and dtypes the
 compiled recurrences refuse

---
 philtorch/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index e348b5c..8b21e98 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -147,10 +147,21 @@ def _setup_context(ctx: Any, inputs: list[Any], output: Any) -> Any:
     ctx.save_for_backward(A, zi, y)
 
 
+def _check_ranks_and_dtypes(
+    A: torch.Tensor, zi: torch.Tensor, x: torch.Tensor, ndim: int
+) -> None:
+    torch._check(x.ndim == ndim, f"x must be {ndim}D.")
+    torch._check(zi.ndim == ndim - 1, f"zi must be {ndim - 1}D.")
+    torch._check(
+        A.dtype == zi.dtype == x.dtype, "A, zi and x must have the same dtype."
+    )
+
+
 if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::recur2")
     def _(A, zi, x):
+        _check_ranks_and_dtypes(A, zi, x, 3)
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
@@ -171,6 +182,7 @@ if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::recurN")
     def _(A, zi, x):
+        _check_ranks_and_dtypes(A, zi, x, 3)
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
         torch._check(
@@ -192,6 +204,7 @@ if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::lti_recur2")
     def _(A, zi, x):
+        _check_ranks_and_dtypes(A, zi, x, 3)
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
@@ -208,6 +221,7 @@ if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::lti_recurN")
     def _(A, zi, x):
+        _check_ranks_and_dtypes(A, zi, x, 3)
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
         torch._check(
@@ -225,6 +239,7 @@ if EXTENSION_LOADED:
 
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
+        _check_ranks_and_dtypes(A, zi, x, 2)
         torch._check(A.ndim <= 1, "A must be 1D or scalar.")
         torch._check(
             zi.shape[0] == x.shape[0], "x and zi must have the same batch size."
-- 
2.43.0


From eda15f51a18822dd7793f02e15135ab91b80c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 37/43] fix: branch names merely containing head were accepted
 and cut

---
 philtorch/_version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/_version.py b/philtorch/_version.py
index 8dbd6cc..0615cea 100644
--- a/philtorch/_version.py
+++ b/philtorch/_version.py
@@ -3,9 +3,9 @@ import re
 
 def format_branch_name(name):
     # "(fix|feat)/issue-name" or CICD's branch "HEAD"
-    pattern = re.compile("^((fix|feat)\/(?P<branch>.+))|((head|HEAD))")
+    pattern = re.compile(r"((fix|feat)/(?P<branch>.+))|(head|HEAD)")
 
-    match = pattern.search(name)
+    match = pattern.fullmatch(name)
     if match:
         return f"dev+{match.group(0)}"  # => dev+"(fix|feat)/issue-name"
 
-- 
2.43.0


From 1f085affb6ca32b611bb6ed08711dcae8efe217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:47 +0000
Subject: [PATCH 38/43] fix: state_space read a consistent D as another shape,
 or broadcast it misaligned against C h

---
 philtorch/lpv/ssm.py | 118 +++++++++++++++++++------------------------
 philtorch/lti/ssm.py |  65 ++++++++++++------------
 2 files changed, 83 insertions(+), 100 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 36f4cd9..e0e0c1a 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -477,100 +477,86 @@ def state_space(
     else:
         features = x.size(-1)
 
+    if C is not None:
+        match C.shape:
+            case (CM,) if CM == M:
+                Ch = h @ C
+            case (CN, CM) if CN == N and CM == M:
+                Ch = torch.linalg.vecdot(C.conj(), h)
+            case (C_batch, CM) if C_batch == batch_size and CM == M:
+                Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)
+            case (_, CM) if CM == M:
+                Ch = h @ C.T
+            case (C_batch, CN, CM) if C_batch == batch_size and CM == M and CN == N:
+                Ch = torch.linalg.vecdot(C.conj(), h)
+            case (CN, _, CM) if CN == N and CM == M:
+                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
+            case (C_batch, _, CM) if C_batch == batch_size and CM == M:
+                Ch = h @ C.mT
+            case (C_batch, CN, _, CM) if C_batch == batch_size and CM == M and CN == N:
+                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
+            case _:
+                raise ValueError(
+                    f"Output matrix C must be of shape ({M,}), ({N, M}), ({batch_size, M}), ({batch_size, N, M}), or ({batch_size, N, features}), got {C.shape}"
+                )
+    else:
+        Ch = h
+
     if D is not None:
+        # D x must have one output per time step or several, like C h
+        single = Ch.dim() == 2
         match D.shape:
-            case (F,) if F == features:
+            case (F,) if single and F == features:
                 Dx = x @ D
-            case (1,) | ():
+            case (1,) | () if Ch.dim() == x.dim():
                 Dx = x * D
-            case (DN,) if DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape {N,}, got {x.shape}"
+            case (DN,) if single and DN == N and x.dim() == 2:
                 Dx = D * x
-            case (D_batch,) if D_batch == batch_size:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
+            case (D_batch,) if single and D_batch == batch_size and x.dim() == 2:
                 Dx = D.unsqueeze(1) * x
-            case (_,):
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape {D.shape}, got {x.shape}"
+            case (_,) if not single and x.dim() == 2:
                 Dx = x.unsqueeze(-1) * D
-            case (DN, F) if DN == N and F == features:
+            case (DN, F) if single and DN == N and F == features:
                 Dx = torch.linalg.vecdot(D.conj(), x)
-            case (D_batch, F) if D_batch == batch_size and F == features:
+            case (D_batch, F) if single and D_batch == batch_size and F == features:
                 Dx = torch.linalg.vecdot(D.conj().unsqueeze(1), x)
-            case (D_batch, DN) if D_batch == batch_size and DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape {batch_size, N}, got {x.shape}"
+            case (D_batch, DN) if (
+                single and D_batch == batch_size and DN == N and x.dim() == 2
+            ):
                 Dx = D * x
-            case (DN, _) if DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
+            case (DN, _) if not single and DN == N and x.dim() == 2:
                 Dx = D * x.unsqueeze(-1)
-            case (D_batch, _) if D_batch == batch_size:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({batch_size, features}), got {x.shape}"
+            case (D_batch, _) if (
+                not single and D_batch == batch_size and x.dim() == 2
+            ):
                 Dx = D.unsqueeze(1) * x.unsqueeze(-1)
-            case (_, F) if F == features:
-                assert (
-                    x.dim() == 3
-                ), f"Input signal x must be 3D when D is of shape {D.shape}, got {x.shape}"
+            case (_, F) if not single and F == features:
                 Dx = x @ D.T
             case (D_batch, DN, F) if (
-                D_batch == batch_size and DN == N and F == features
+                single and D_batch == batch_size and DN == N and F == features
             ):
                 Dx = torch.linalg.vecdot(D.conj(), x)
-            case (D_batch, DN, _) if D_batch == batch_size and DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({batch_size, N, features}), got {x.shape}"
+            case (D_batch, DN, _) if (
+                not single and D_batch == batch_size and DN == N and x.dim() == 2
+            ):
                 Dx = D * x.unsqueeze(-1)
-            case (DN, _, F) if DN == N and F == features:
+            case (DN, _, F) if not single and DN == N and F == features:
                 Dx = torch.linalg.vecdot(D.conj(), x.unsqueeze(-2))
-            case (D_batch, _, F) if D_batch == batch_size and F == features:
+            case (D_batch, _, F) if (
+                not single and D_batch == batch_size and F == features
+            ):
                 Dx = x @ D.mT
             case (D_batch, DN, _, F) if (
-                D_batch == batch_size and DN == N and F == features
+                not single and D_batch == batch_size and DN == N and F == features
             ):
                 Dx = torch.linalg.vecdot(D.conj(), x.unsqueeze(-2))
             case _:
                 raise ValueError(
-                    f"Input matrix D must be of shape (), (1,), ({N},), ({batch_size},), ({features},), ({N, features}), ({batch_size, N}), ({batch_size, features}), ({features, features}), ({batch_size, N, features}), ({N, features, features}), ({batch_size, features, features}), or ({batch_size, N, features, features}), got {D.shape}"
+                    f"Input matrix D must be of shape (), (1,), ({N},), ({batch_size},), ({features},), ({N, features}), ({batch_size, N}), ({batch_size, features}), ({features, features}), ({batch_size, N, features}), ({N, features, features}), ({batch_size, features, features}), or ({batch_size, N, features, features}) and give as many outputs as C, got {D.shape}"
                 )
     else:
         Dx = None
 
-    if C is not None:
-        match C.shape:
-            case (CM,) if CM == M:
-                Ch = h @ C
-            case (CN, CM) if CN == N and CM == M:
-                Ch = torch.linalg.vecdot(C.conj(), h)
-            case (C_batch, CM) if C_batch == batch_size and CM == M:
-                Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)
-            case (_, CM) if CM == M:
-                Ch = h @ C.T
-            case (C_batch, CN, CM) if C_batch == batch_size and CM == M and CN == N:
-                Ch = torch.linalg.vecdot(C.conj(), h)
-            case (CN, _, CM) if CN == N and CM == M:
-                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
-            case (C_batch, _, CM) if C_batch == batch_size and CM == M:
-                Ch = h @ C.mT
-            case (C_batch, CN, _, CM) if C_batch == batch_size and CM == M and CN == N:
-                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
-            case _:
-                raise ValueError(
-                    f"Output matrix C must be of shape ({M,}), ({N, M}), ({batch_size, M}), ({batch_size, N, M}), or ({batch_size, N, features}), got {C.shape}"
-                )
-    else:
-        Ch = h
-
     if Dx is not None:
         y = Ch + Dx
     else:
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index c4a3070..c6dc3ac 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -531,40 +531,6 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
     else:
         features = x.size(-1)
 
-    if D is not None:
-        match D.shape:
-            case (F,) if F == features:
-                Dx = x @ D
-            case (1,) | ():
-                Dx = x * D
-            case (D_batch,) if D_batch == batch_size:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
-                Dx = D.unsqueeze(1) * x
-            case (_,):
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape (_,), got {x.shape}"
-                Dx = D * x.unsqueeze(-1)
-            case (D_batch, F) if D_batch == batch_size and F == features:
-                Dx = torch.linalg.vecdot(D.unsqueeze(1).conj(), x)
-            case (D_batch, _) if D_batch == batch_size:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({batch_size}, _), got {x.shape}"
-                Dx = D.unsqueeze(1) * x.unsqueeze(-1)
-            case (_, F) if F == features:
-                Dx = x @ D.T
-            case (D_batch, _, F) if D_batch == batch_size and F == features:
-                Dx = torch.linalg.vecdot(D.unsqueeze(1).conj(), x.unsqueeze(-2))
-            case _:
-                raise ValueError(
-                    f"Input matrix D must be of shape ({batch_size,}), (), ({features},), (_, ), ({batch_size}, {features}), ({batch_size}, _), (_, {features}), or ({batch_size}, _, {features}), got {D.shape}"
-                )
-    else:
-        Dx = None
-
     if C is not None:
         match C.shape:
             case (CM,) if CM == M:
@@ -582,6 +548,37 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
     else:
         Ch = h
 
+    if D is not None:
+        # D x must have one output per time step or several, like C h
+        single = Ch.dim() == 2
+        match D.shape:
+            case (F,) if single and F == features:
+                Dx = x @ D
+            case (1,) | () if Ch.dim() == x.dim():
+                Dx = x * D
+            case (D_batch,) if single and D_batch == batch_size and x.dim() == 2:
+                Dx = D.unsqueeze(1) * x
+            case (_,) if not single and x.dim() == 2:
+                Dx = D * x.unsqueeze(-1)
+            case (D_batch, F) if single and D_batch == batch_size and F == features:
+                Dx = torch.linalg.vecdot(D.unsqueeze(1).conj(), x)
+            case (D_batch, _) if (
+                not single and D_batch == batch_size and x.dim() == 2
+            ):
+                Dx = D.unsqueeze(1) * x.unsqueeze(-1)
+            case (_, F) if not single and F == features:
+                Dx = x @ D.T
+            case (D_batch, _, F) if (
+                not single and D_batch == batch_size and F == features
+            ):
+                Dx = torch.linalg.vecdot(D.unsqueeze(1).conj(), x.unsqueeze(-2))
+            case _:
+                raise ValueError(
+                    f"Input matrix D must be of shape ({batch_size,}), (), ({features},), (_, ), ({batch_size}, {features}), ({batch_size}, _), (_, {features}), or ({batch_size}, _, {features}) and give as many outputs as C, got {D.shape}"
+                )
+    else:
+        Dx = None
+
     if Dx is not None:
         y = Ch + Dx
     else:
-- 
2.43.0


From 3f1291854868e5df666eb5f70f15de660b601410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:54 +0000
Subject: [PATCH 39/43] fix: state_space refused a documented B for
 multi-feature inputs when sizes coincide

---
 philtorch/lpv/ssm.py | 19 +++++++------------
 philtorch/lti/ssm.py | 14 ++++++--------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index e0e0c1a..dfac8c4 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -419,22 +419,17 @@ def state_space(
                 Bx = x.unsqueeze(-1) * B
             case (BM, F) if BM == M and F == features:
                 Bx = x @ B.T
-            case (BN, BM) if BN == N and BM == M:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
+            case (BN, BM) if x.dim() == 2 and BN == N and BM == M:
                 Bx = x.unsqueeze(-1) * B
-            case (B_batch, BM) if B_batch == batch_size and BM == M:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
+            case (B_batch, BM) if (
+                x.dim() == 2 and B_batch == batch_size and BM == M
+            ):
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
             case (BN, BM, F) if BN == N and BM == M and F == features:
                 Bx = torch.linalg.vecdot(B.conj(), x.unsqueeze(-2))
-            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
+            case (B_batch, BN, BM) if (
+                x.dim() == 2 and B_batch == batch_size and BM == M and BN == N
+            ):
                 Bx = x.unsqueeze(-1) * B
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index c6dc3ac..36344a8 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -464,10 +464,9 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {M,}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B
-            case (B_batch, BM) if B_batch == batch_size and BM == M:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
+            case (B_batch, BM) if (
+                x.dim() == 2 and B_batch == batch_size and BM == M
+            ):
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
             case (BM, F) if BM == M and F == features:
                 Bx = x @ B.T
@@ -758,10 +757,9 @@ def diag_state_space(
                 if VinvB.dim() == 2:
                     VinvB = VinvB.unsqueeze(1)
                 VinvBx = x.unsqueeze(-1) * VinvB
-            case (B_batch, BM) if B_batch == batch_size and BM == M:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
+            case (B_batch, BM) if (
+                x.dim() == 2 and B_batch == batch_size and BM == M
+            ):
                 VinvB = (
                     B @ Vinv.T
                     if Vinv.dim() == 2
-- 
2.43.0


From 09d232721ea2047853971f6044e8c4d09bcb96a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 40/43] fix: lpv linear_recurrence cut the output when batched
 coefficients and input differ in length

---
 philtorch/lpv/recur.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lpv/recur.py b/philtorch/lpv/recur.py
index 1dc9fcd..aab92ac 100644
--- a/philtorch/lpv/recur.py
+++ b/philtorch/lpv/recur.py
@@ -38,9 +38,9 @@ def linear_recurrence(
     """
     assert x.dim() == 2, f"Input x must be 2D, got {x.shape}"
     assert a.dim() in (1, 2), f"State matrix a must be 1D or 2D, got {a.shape}"
-    if a.dim() == 1 and a.size(0) != x.size(1):
+    if a.size(-1) != x.size(1):
         raise ValueError(
-            f"State matrix a must be 1D with the same length as x, got a: {a.size(0)}, x: {x.size(1)}"
+            f"State matrix a must have the same length as x, got a: {a.size(-1)}, x: {x.size(1)}"
         )
 
     batch_size, N = x.size(0), x.size(1)
-- 
2.43.0


From 33c8e6b53b49e53c4a0ab186c391b15668a70e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 41/43] fix: lfilter took a numerator of another batch size for
 several outputs

---
 philtorch/lpv/filtering.py |  6 ++++++
 philtorch/lti/filtering.py | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 65e9084..383fc16 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -166,6 +166,12 @@ def lfilter(
 
     assert b.dim() in (2, 3), "Numerator coefficients b must be 2D or 3D."
     assert a.dim() in (2, 3), "Denominator coefficients a must be 2D or 3D."
+    if b.dim() == 3:
+        assert b.size(0) in (
+            1,
+            x.size(0),
+        ), "The first dimension of b must be 1 or match the batch size of x."
+        b = b.expand(x.size(0), -1, -1)
 
     match backend:
         case "ssm":
diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index a47e9f9..abd7ee3 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -49,6 +49,10 @@ def comb_filter(
         a = a.repeat_interleave(delay)
     if zi is not None:
         return_zf = True
+        assert zi.shape in (
+            (delay,),
+            (x.size(0), delay),
+        ), "Initial conditions zi must have shape (delay,) or (B, delay)."
         if zi.dim() == 1:
             zi = zi.flip(0).repeat(x.size(0))
         else:
@@ -254,6 +258,12 @@ def lfilter(
 
     assert b.dim() in (1, 2), "Numerator coefficients b must be 1D or 2D."
     assert a.dim() in (1, 2), "Denominator coefficients a must be 1D or 2D."
+    if b.dim() == 2:
+        assert b.size(0) in (
+            1,
+            x.size(0),
+        ), "The first dimension of b must be 1 or match the batch size of x."
+        b = b.expand(x.size(0), -1)
 
     match backend:
         case "ssm":
-- 
2.43.0


From f9866cbd92ee31eb2ad5c05fd9dbc5302a36098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 42/43] fix: the second-order compiled recurrences accepted
 other orders on the CPU

---
 philtorch/csrc/host_lti_recurN.cpp | 11 ++++++++++-
 philtorch/csrc/host_recurN.cpp     | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 3a576c5..8105742 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -111,8 +111,17 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
         .contiguous(); // Remove the initial state from the output
 }
 
+at::Tensor lti_mat_recur_2_order_cpu_impl(const at::Tensor &A,
+                                          const at::Tensor &zi,
+                                          const at::Tensor &x)
+{
+    TORCH_CHECK(x.dim() == 3 && x.size(2) == 2,
+                "Input x must have a last dimension of size 2");
+    return lti_mat_recur_N_order_cpu_impl(A, zi, x);
+}
+
 TORCH_LIBRARY_IMPL(philtorch, CPU, m)
 {
     m.impl("lti_recurN", &lti_mat_recur_N_order_cpu_impl);
-    m.impl("lti_recur2", &lti_mat_recur_N_order_cpu_impl);
+    m.impl("lti_recur2", &lti_mat_recur_2_order_cpu_impl);
 }
\ No newline at end of file
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 4ce6cf8..4ca7881 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -292,8 +292,17 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
         .contiguous(); // Remove the initial state from the output
 }
 
+at::Tensor mat_recur_2_order_cpu_omp_impl(const at::Tensor &A,
+                                          const at::Tensor &zi,
+                                          const at::Tensor &x)
+{
+    TORCH_CHECK(x.dim() == 3 && x.size(2) == 2,
+                "Input x must have a last dimension of size 2");
+    return mat_recur_N_order_cpu_omp_impl(A, zi, x);
+}
+
 TORCH_LIBRARY_IMPL(philtorch, CPU, m)
 {
     m.impl("recurN", &mat_recur_N_order_cpu_omp_impl);
-    m.impl("recur2", &mat_recur_N_order_cpu_omp_impl);
+    m.impl("recur2", &mat_recur_2_order_cpu_omp_impl);
 }
\ No newline at end of file
-- 
2.43.0


From 5d8307a02ecfcf315031d05e26e2a42fcfb47b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 43/43] fix: CUDA recurrences did not check dtypes, batch sizes
 and lengths, and refused some layouts of A

---
 philtorch/csrc/lti_recur2.cu |  4 ++++
 philtorch/csrc/recur2.cu     | 12 +++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/philtorch/csrc/lti_recur2.cu b/philtorch/csrc/lti_recur2.cu
index 8e7b405..eff634f 100644
--- a/philtorch/csrc/lti_recur2.cu
+++ b/philtorch/csrc/lti_recur2.cu
@@ -72,9 +72,13 @@ at::Tensor lti_mat_recur_second_order_cuda_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 2 || A.dim() == 3, "A must be a 2D or 3D tensor");
+    TORCH_CHECK(x.dim() == 3 && zi.dim() == 2,
+                "x must be a 3D tensor and zi a 2D tensor");
     TORCH_CHECK(x.size(2) == 2, "Input x must have a last dimension of size 2");
     TORCH_CHECK(A.size(-1) == 2 && A.size(-2) == 2,
                 "Last two dimensions of A must be of size 2");
+    TORCH_CHECK(A.dim() == 2 || A.size(0) == x.size(0),
+                "Batch size of A must match batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/recur2.cu b/philtorch/csrc/recur2.cu
index 3e00077..e78e21e 100644
--- a/philtorch/csrc/recur2.cu
+++ b/philtorch/csrc/recur2.cu
@@ -70,20 +70,26 @@ at::Tensor mat_recur_second_order_cuda_impl(const at::Tensor &A,
                                             const at::Tensor &zi,
                                             const at::Tensor &x)
 {
-    TORCH_CHECK(zi.scalar_type() == zi.scalar_type(),
+    TORCH_CHECK(zi.scalar_type() == x.scalar_type(),
                 "zi must have the same scalar type as input");
-    TORCH_CHECK(A.scalar_type() == A.scalar_type(),
+    TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3 && zi.dim() == 2,
+                "x must be a 3D tensor and zi a 2D tensor");
     TORCH_CHECK(x.size(2) == 2, "Input x must have a last dimension of size 2");
     TORCH_CHECK(A.size(-1) == 2 && A.size(-2) == 2,
                 "Last two dimensions of A must be of size 2");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Number of time steps of A must match x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "Batch size of A must match batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
 
     auto A_contiguous =
-        at::pad(A, {0, 0, 0, 0, 1, 0}).view({-1, 4}).t().contiguous();
+        at::pad(A, {0, 0, 0, 0, 1, 0}).reshape({-1, 4}).t().contiguous();
     auto x_contiguous =
         at::cat({zi.unsqueeze(1), x}, 1).view({-1, 2}).t().contiguous();
     auto out = at::empty_like(x_contiguous);
-- 
2.43.0

