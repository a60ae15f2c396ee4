From 61ae4ec8a45374923624e26eeb0086b928c849f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 01/39] fix: use builtin int/float instead of the numpy aliases
 removed in numpy 1.24

ParticleTrajectory, resampling, backward simulation and the conditional
filters raised AttributeError before doing any work.
---
 pyparticleest/filter.py            | 16 ++++++++--------
 pyparticleest/paramest/paramest.py |  2 +-
 pyparticleest/smoother.py          |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9fdfae7..6a9fad4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -355,8 +355,8 @@ class CSIRAS(SIR):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext(particles=traj[cur_ind].pa.part,
                                        next_part=self.ctraj[cur_ind + 1].pa.part[find],
@@ -613,8 +613,8 @@ class CPFAS(CPF):
         ancestors[:-1] = sample(tmp, N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.asarray(range(N), dtype=numpy.int)
-        find = numpy.zeros((N,), dtype=numpy.int)
+        pind = numpy.asarray(range(N), dtype=int)
+        find = numpy.zeros((N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -738,8 +738,8 @@ class CPFYAS(CPFAS):
         ancestors[:-1] = sample(tmp, self.N - 1)
 
         #select ancestor for conditional trajectory
-        pind = numpy.arange(self.N, dtype=numpy.int)
-        find = numpy.zeros((self.N,), dtype=numpy.int)
+        pind = numpy.arange(self.N, dtype=int)
+        find = numpy.zeros((self.N,), dtype=int)
 
         wtrans = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[pind],
                                                   past_trajs=traj[:cur_ind],
@@ -857,7 +857,7 @@ class ParticleTrajectory(object):
         else:
             self.uvec = numpy.empty(1, dtype=utype)
             self.yvec = numpy.empty(1, dtype=ytype)
-            self.tvec = numpy.empty(1, dtype=numpy.float)
+            self.tvec = numpy.empty(1, dtype=float)
             self.T = 0
         #TODO, this isn't correctly used in the code, assumed = 0
         assert(t0 == 0)
@@ -1116,7 +1116,7 @@ class ParticleApproximation(object):
         new_ind = sample(numpy.exp(tmp), N)
         new_part = model.copy_ind(self.part, new_ind)
 
-        self.w = numpy.log(numpy.ones(N, dtype=numpy.float) / N)
+        self.w = numpy.log(numpy.ones(N, dtype=float) / N)
         self.part = new_part
         self.num = N
         self.w_offset = 0.0
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 1e8f917..d4490ef 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -228,7 +228,7 @@ class ParamEstimationPSAEM(Simulator):
         if (callback is None):
             callback = default_callback
 
-        ind = numpy.asarray(range(num_part), dtype=numpy.int)
+        ind = numpy.asarray(range(num_part), dtype=int)
         i = 0;
         while (True):
             i += 1
diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 01cebda..45983ce 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -360,7 +360,7 @@ class SmoothTrajectory(object):
         else:
             raise ValueError('Unknown sampler: %s' % method)
 
-        find = numpy.arange(M, dtype=numpy.int)
+        find = numpy.arange(M, dtype=int)
 
         for cur_ind in reversed(range(len(pt) - 1)):
 
@@ -523,7 +523,7 @@ class SmoothTrajectory(object):
         ut = self.u
         yt = self.y
         tt = self.t
-        pind = numpy.arange(self.M, dtype=numpy.int)
+        pind = numpy.arange(self.M, dtype=int)
 
         straj = numpy.empty((T,), dtype=object)
         pt = self.traj[:T - 1]
-- 
2.43.0


From aa03c359052b50b102a1000c7ea6043d51d3e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 02/39] fix: replace xrange, which does not exist in Python 3,
 in paramest

Every parameter estimation loop raised NameError.
---
 pyparticleest/models/nlg.py          |  2 +-
 pyparticleest/paramest/interfaces.py |  8 ++++----
 pyparticleest/paramest/paramest.py   | 26 +++++++++++++-------------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 407a0aa..d4931d5 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -436,7 +436,7 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
                 if (numpy.array_equiv(particles[i], x0)):
                     res[i] = 0.0
                 else:
-                    res[i] = -numpy.Inf
+                    res[i] = -numpy.inf
         else:
             Pchol = scipy.linalg.cho_factor(self.Px0, check_finite=False)
             for i in range(N):
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 3430427..0a26a18 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -61,7 +61,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T - 1):
+        for i in range(T - 1):
             val = self.eval_logp_xnext(sest[i],
                                        sest[i + 1],
                                        ut[i], tt[i])
@@ -73,7 +73,7 @@ class ParamEstInterface(ParamEstIntFullTraj):
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = straj.traj.shape[0]
-        for i in xrange(T):
+        for i in range(T):
             if (yt[i] is not None):
                 val = self.eval_logp_y(sest[i], yt[i], tt[i])
                 logp_y += numpy.sum(val)
@@ -142,7 +142,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T):
+        for t in range(T):
             if (straj.y[t] is not None):
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
@@ -157,7 +157,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
         sest = straj.get_smoothed_estimates()
         M = sest.shape[1]
         T = len(straj)
-        for t in xrange(T - 1):
+        for t in range(T - 1):
             (val, grad) = self.eval_logp_xnext_val_grad(sest[t],
                                                         sest[t + 1],
                                                         straj.u[t],
diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index d4490ef..6738f6f 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -43,8 +43,8 @@ class ParamEstimation(Simulator):
         """
 
         params_local = numpy.copy(param0)
-        Q = -numpy.Inf
-        for i in xrange(max_iter):
+        Q = -numpy.inf
+        for i in range(max_iter):
             Q_old = Q
             self.set_params(params_local)
             if (numpy.isscalar(num_part)):
@@ -77,11 +77,11 @@ class ParamEstimation(Simulator):
             #Q = -Q
             # Q_grad = -Q_grad
             if (callback is not None):
-                callback(params=params_local, Q=-numpy.Inf, cur_iter=i) #, Q=Q)
+                callback(params=params_local, Q=-numpy.inf, cur_iter=i) #, Q=Q)
 #            if (numpy.abs(Q - Q_old) < tol):
 #                break
         #return (params_local, Q)
-        return (params_local, -numpy.Inf)
+        return (params_local, -numpy.inf)
 
 def alpha_gen(it):
     offset = 100
@@ -132,7 +132,7 @@ class ParamEstimationSAEM(Simulator):
         alltrajs = None
         weights = None
 
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             if (numpy.isscalar(num_part)):
@@ -176,8 +176,8 @@ class ParamEstimationSAEM(Simulator):
             params_local = self.model.maximize_weighted(self.straj, alltrajs, weights)
 
             if (callback is not None):
-                callback(params=params_local, Q=-numpy.Inf, cur_iter=i) #, Q=Q)
-        return (params_local, -numpy.Inf)
+                callback(params=params_local, Q=-numpy.inf, cur_iter=i) #, Q=Q)
+        return (params_local, -numpy.inf)
 
 class ParamEstimationPSAEM(Simulator):
     """
@@ -283,10 +283,10 @@ class ParamEstimationPSAEM(Simulator):
             params_local = self.model.maximize_weighted(self.straj, alltrajs, weights)
 
             if (callback is not None):
-                rval = callback(params=params_local, Q=-numpy.Inf, cur_iter=i)
+                rval = callback(params=params_local, Q=-numpy.inf, cur_iter=i)
                 if (rval):
                     break
-        return (params_local, -numpy.Inf)
+        return (params_local, -numpy.inf)
 
 class ParamEstimationPSAEM2(Simulator):
     """
@@ -331,7 +331,7 @@ class ParamEstimationPSAEM2(Simulator):
         weights = numpy.empty((max_iter * num_part,))
 
         datalen = 0
-        for i in xrange(max_iter):
+        for i in range(max_iter):
             self.set_params(params_local)
 
             self.simulate(num_part, 1, filter=filter, filter_options=filter_options,
@@ -345,7 +345,7 @@ class ParamEstimationPSAEM2(Simulator):
 
             newtrajs = numpy.empty((T, N, D))
 
-            for t in xrange(T):
+            for t in range(T):
                 newtrajs[t] = tmp[t].pa.part
 
             w = 1.0
@@ -382,8 +382,8 @@ class ParamEstimationPSAEM2(Simulator):
 #            params_local = self.model.maximize_weighted(self.straj, alltrajs[:, -1:], numpy.asarray((1.0,)))
 
             if (callback is not None):
-                callback(params=params_local, Q=-numpy.Inf, cur_iter=i + 1) #, Q=Q)
-        return (params_local, -numpy.Inf)
+                callback(params=params_local, Q=-numpy.inf, cur_iter=i + 1) #, Q=Q)
+        return (params_local, -numpy.inf)
 
 
 
-- 
2.43.0


From 2c85612862f5aeebf7305cd300d6a6608542d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 03/39] fix: nlg: pass the variance, not its square root, to
 lognormpdf_scalar

With constant scalar Q or R different from 1 both logp_xnext and measure
returned the density of N(0, sqrt(Q)).
---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index d4931d5..00e721e 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -200,7 +200,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         diff = yrep - g
         if (R is None):
             if (self.Rcholtri.shape[0] == 1):
-                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri)
+                lpy = kalman.lognormpdf_scalar(diff, self.Rcholtri ** 2)
             else:
                 lpy = kalman.lognormpdf_cho_vec(diff, self.Rchol)
         else:
@@ -287,7 +287,7 @@ class NonlinearGaussian(interfaces.ParticleFiltering, interfaces.FFBSiRS):
         Q = self.calc_Q(particles, u, t)
         if (Q is None):
             if (self.Qcholtri.shape[0] == 1):
-                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri)
+                lpx = kalman.lognormpdf_scalar(diff, self.Qcholtri ** 2)
             else:
                 lpx = kalman.lognormpdf_cho_vec(diff, self.Qchol)
         else:
-- 
2.43.0


From 6f633dc5a2eb5aaf6e5dbdd74dd2d77ea9060c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 04/39] fix: nlg: sample initial particles with covariance Px0

The raw cho_factor output (arbitrary lower triangle, not transposed) was
used as a square root of Px0.
---
 pyparticleest/models/nlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/nlg.py b/pyparticleest/models/nlg.py
index 00e721e..0d2bc8b 100644
--- a/pyparticleest/models/nlg.py
+++ b/pyparticleest/models/nlg.py
@@ -412,9 +412,9 @@ class NonlinearGaussianInitialGaussian(NonlinearGaussian):
          of all particles """
         particles = numpy.repeat(self.x0, N, 1).T
         if (numpy.any(self.Px0)):
-            Pchol = scipy.linalg.cho_factor(self.Px0)[0]
+            Pchol = numpy.triu(scipy.linalg.cho_factor(self.Px0)[0])
             noise = numpy.random.normal(size=(self.lxi, N))
-            particles += (Pchol.dot(noise)).T
+            particles += (Pchol.T.dot(noise)).T
         return particles
 
     def eval_logp_x0(self, particles, t):
-- 
2.43.0


From 4a3a8c8a8a96ae03a1de54cf64aded1748c124d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 05/39] fix: hierarchial: logp_xnext_max has the wrong sign and
 scale for the log determinant

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 589436b..65f1e9c 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -259,7 +259,7 @@ class HierarchicalRSBase(HierarchicalBase, FFBSiRS):
         for i in range(N):
             # Predict z_{t+1}
             Pn = Az[i].dot(Pl[i]).dot(Az[i].T) + Qz[i]
-            lpz[i] = -0.5 * nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1]
+            lpz[i] = -0.5 * (nx * math.log(2 * math.pi) + numpy.linalg.slogdet(Pn)[1])
         lpmax = numpy.max(lpxi + lpz)
         return lpmax
 
-- 
2.43.0


From cd229e4a64003176b95807c06eb4da2636b06846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 06/39] fix: hierarchial: sample_smooth used particle 0 for
 every trajectory

It read (and repeatedly conditioned in place) the statistics of the first
particle instead of those of particle j.
---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 65f1e9c..3b731bb 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -160,7 +160,7 @@ class HierarchicalBase(RBPSBase):
         res = numpy.zeros((M, self.lxi + self.kf.lz + 2 * self.kf.lz ** 2))
         for j in range(M):
             partj = numpy.copy(part[j:j + 1])
-            (xil, zl, Pl) = self.get_states(part,)
+            (xil, zl, Pl) = self.get_states(partj)
             if (future_trajs is not None):
                 (A, f, Q, _, _, _) = self.get_lin_pred_dynamics_int(partj,
                                                                     ut[cur_ind],
-- 
2.43.0


From bc79b93649eb1b7c984a81d0c72abed91e4b94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 07/39] fix: ltv: smooth with the dynamics of the current time
 step

sample_smooth always asked for the dynamics at index 0 and always smoothed
particle 0.
---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 402b133..b1baae2 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -277,11 +277,11 @@ class LTV(FFBSi, ParticleFiltering):
         res = numpy.empty((M, lz + 2 * lz ** 2))
         for j in range(M):
             if (future_trajs is not None):
-                zn = future_trajs[0].pa.part[j, :lz].reshape((lz, 1))
-                Pn = future_trajs[0].pa.part[j, lz:lzP].reshape((lz, lz))
-                (A, f, Q) = self.get_pred_dynamics(u=ut[0], t=tt[0])
+                zn = future_trajs[0].pa.part[find[j], :lz].reshape((lz, 1))
+                Pn = future_trajs[0].pa.part[find[j], lz:lzP].reshape((lz, lz))
+                (A, f, Q) = self.get_pred_dynamics(u=ut[cur_ind], t=tt[cur_ind])
                 self.kf.set_dynamics(A=A, Q=Q, f_k=f)
-                (zs, Ps, Ms) = self.kf.smooth(zl[0], Pl[0], zn, Pn, self.kf.A,
+                (zs, Ps, Ms) = self.kf.smooth(zl[j], Pl[j], zn, Pn, self.kf.A,
                                               self.kf.f_k, self.kf.Q)
             else:
                 zs = zl[j]
-- 
2.43.0


From 0f917d6cfdf2498afc6f6fb6a6d37200353aea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 08/39] fix: ltv: eval_logp_y_val_grad raised TypeError and
 used untransposed residuals

---
 pyparticleest/models/ltv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index b1baae2..665c586 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -494,7 +494,7 @@ class LTV(FFBSi, ParticleFiltering):
             for i in range(N):
             # Calculate l3 according to (19b)
                 # Calculate l3 according to (19b)
-                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i])
+                (l3, l3_grad) = self.calc_l3_grad(y, zl[i], Pl[i], C_grad, h_grad)
                 tmp = scipy.linalg.cho_solve(Rcho, l3)
                 logpy += -0.5 * (ld + numpy.trace(tmp))
 
@@ -623,12 +623,12 @@ class LTV(FFBSi, ParticleFiltering):
         l3_grad = numpy.zeros((lparam, len(y), len(y)))
         if (h_grad is not None):
             for j in range(lparam):
-                tmp = -h_grad[j].dot(meas_diff)
+                tmp = -h_grad[j].dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
         if (C_grad is not None):
             for j in range(lparam):
-                tmp = -C_grad[j].dot(z).dot(meas_diff)
+                tmp = -C_grad[j].dot(z).dot(meas_diff.T)
                 l3_grad[j] += tmp + tmp.T
-                tmp = C_grad[j].dot(P).dot(self.kf.C)
+                tmp = C_grad[j].dot(P).dot(self.kf.C.T)
                 l3_grad[j] += tmp + tmp.T
         return (l3, l3_grad)
-- 
2.43.0


From 69ea5d1451faf67cbe8698fdb01604c6501fe5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 09/39] fix: mlnlg: condition the process noise of z on
 xi_{t+1}

The conditional covariance is Qz - Qxiz^T Qxi^-1 Qxiz, not Qz, and the
residual has to be a column vector also for more than one nonlinear state.
---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 8138cb7..e88b06d 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -264,8 +264,8 @@ class MixedNLGaussianSampled(RBPSBase):
             # TODO linalg.solve instead?
             tmp = Qxiz[i].T.dot(scipy.linalg.inv(Qxi[i]))
             Acond.append(Az[i] - tmp.dot(Axi[i]))
-            fcond.append(fz[i] + tmp.dot(xi_next[i] - fxi[i]))
-            Qcond.append(Qz[i])
+            fcond.append(fz[i] + tmp.dot(xi_next[i].reshape((-1, 1)) - fxi[i]))
+            Qcond.append(Qz[i] - tmp.dot(Qxiz[i]))
 
         return (Acond, fcond, Qcond)
 
-- 
2.43.0


From fecab11ef2385ea12c2f0d07c7c622dab75f9ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 10/39] fix: mlnlg: marginalized smoother ignored the noise
 cross covariance

calc_prop1 used the unconditional dynamics of z even if Qxiz was given, and
broadcast the residual to a matrix for more than one nonlinear state.
---
 pyparticleest/models/mlnlg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index e88b06d..b1fe50f 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1201,8 +1201,9 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         Omega = numpy.zeros_like(OHnl)
         Lambda = numpy.zeros_like(LHnl)
 
-        (Az, fz, Qz, _, _, _) = self.get_lin_pred_dynamics_int(particles=particles,
-                                                               u=u, t=t)
+        # Dynamics of z conditioned on the next nonlinear state
+        (Az, fz, Qz) = self.calc_cond_dynamics(particles=particles, xi_next=xinl,
+                                               u=u, t=t)
         (Axi, fxi, Qxi, _, _, _) = self.get_nonlin_pred_dynamics_int(particles=particles,
                                                                      u=u, t=t)
 
@@ -1211,7 +1212,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             m = LHnl[j] - OHnl[j].dot(fz[j])
             Mt = F.T.dot(OHnl[j]).dot(F) + numpy.eye(lz)
             Tau_t = 0.0
-            xidiff = xinl[j] - fxi[j]
+            xidiff = xinl[j].reshape((lxi, 1)) - fxi[j]
             Tau_t += xidiff.T.dot(numpy.linalg.solve(Qxi[j], xidiff))
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
-- 
2.43.0


From e43d2bd6ebe9ac1188c1afaea5ad547d50f5b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 11/39] fix: mlnlg: sign error in the marginalized backward
 weights

Integrating out the noise of z_{t+1} subtracts the quadratic form
m^T F Mt^-1 F^T m from tau.
---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index b1fe50f..0090926 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1217,7 +1217,7 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
             Tau_t += fz[j].T.dot(OHnl[j]).dot(fz[j])
             Tau_t += -2.0 * LHnl[j].T.dot(fz[j])
             tmp = F.T.dot(m)
-            Tau_t += tmp.T.dot(numpy.linalg.solve(Mt, tmp))
+            Tau_t -= tmp.T.dot(numpy.linalg.solve(Mt, tmp))
 
             tmp = F.dot(numpy.linalg.solve(Mt, F.T))
 
-- 
2.43.0


From 3995d05b016eaf6aa277980c66c5b10c74becb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 12/39] fix: mlnlg: marginalized sample_smooth counted
 information from missing measurements

Omega was updated with C^T R^-1 C even if there was no measurement, the
preprocessed measurement was ignored, and models without C failed.
---
 pyparticleest/models/mlnlg.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 0090926..52d7075 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1331,7 +1331,6 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
         LHind = lxi + OHlen
         res = numpy.zeros((M, lxi + OHlen + LHlen))
 
-        (_, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part, y=yt[cur_ind], t=tt[cur_ind])
 
         res[:, :lxi] = part[:, :lxi]
 
@@ -1340,13 +1339,18 @@ class MixedNLGaussianMarginalized(MixedNLGaussianSampled):
                 res[j, OHind:OHind + OHlen] = Omega[j].ravel()
                 res[j, LHind:] = Lambda[j].ravel()
 
-        for j in range(M):
-            if (Cz is not None and Cz[j] is not None):
-                tmp = numpy.linalg.solve(Rz[j], Cz[j])
-                res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
-            if (yt is not None and yt[cur_ind] is not None):
-                res[j, LHind:] += (tmp.T.dot(numpy.asarray(yt[cur_ind]).reshape((-1, 1)) -
-                                             hz[j])).ravel()
+        if (yt is not None and yt[cur_ind] is not None):
+            (y, Cz, hz, Rz, _, _, _) = self.get_meas_dynamics_int(particles=part,
+                                                                  y=yt[cur_ind],
+                                                                  t=tt[cur_ind])
+            for j in range(M):
+                if (Cz[j] is not None):
+                    tmp = numpy.linalg.solve(Rz[j], Cz[j])
+                    err = numpy.asarray(y).reshape((-1, 1))
+                    if (hz[j] is not None):
+                        err = err - hz[j]
+                    res[j, OHind:OHind + OHlen] += (Cz[j].T.dot(tmp)).ravel()
+                    res[j, LHind:] += (tmp.T.dot(err)).ravel()
 
         return res
 
-- 
2.43.0


From d5891e4b7b997a5fdd39de04a9f4c340fa621f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 13/39] fix: mlnlg: calc_l3_grad overwrote the supplied C_grad
 with zeros

---
 pyparticleest/models/mlnlg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 52d7075..0bcf70e 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -936,7 +936,6 @@ class MixedNLGaussianSampled(RBPSBase):
             l3[i] = meas_diff.dot(meas_diff.T) + Cl[i].dot(Pl[i]).dot(Cl[i].T)
 
             if (C_grad is not None):
-                C_grad = N * (numpy.zeros((len(self.params), len(y), self.kf.lz)),)
                 for j in range(len(self.params)):
                     tmp2 = C_grad[i][j].dot(Pl[i]).dot(Cl[i].T)
                     tmp = C_grad[i][j].dot(zl[i]).dot(meas_diff.T)
-- 
2.43.0


From be267987aeb0468192e54220026750a9b07ea453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 14/39] fix: mlnlg: eval_logp_y_val_grad failed for particle
 dependent R

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 0bcf70e..7a04ada 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1022,7 +1022,7 @@ class MixedNLGaussianSampled(RBPSBase):
                                                                       l3[i], l3_grad[i][j])
             else:
                 for i in range(N):
-                    Rzcho = scipy.linalg.cho_factor(Rzcho, check_finite=False)
+                    Rzcho = scipy.linalg.cho_factor(Rz[i], check_finite=False)
                     # (_tmp, ld) = numpy.linalg.slogdet(Rz[i])
                     ld = numpy.sum(numpy.log(numpy.diagonal(Rzcho[0]))) * 2
                     tmp = scipy.linalg.cho_solve(Rzcho, l3[i])
-- 
2.43.0


From 5933f9e982b36d6fc2b1b3d0683f6f35fcdb3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 15/39] fix: mlnlg: value of eval_logp_x0_val_grad did not
 match its gradient

The log density of xi_0 was an array with one element per particle, added to
the sum over all particles for z_0, and the total was divided by N.
---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 7a04ada..29b7106 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -761,7 +761,7 @@ class MixedNLGaussianSampled(RBPSBase):
         (xil, zl, Pl) = self.get_states(particles)
         (z0, P0) = self.get_rb_initial(xil)
         (z0_grad, P0_grad) = self.get_rb_initial_grad(xil)
-        lpxi0 = self.eval_logp_xi0(xil)
+        lpxi0 = numpy.sum(self.eval_logp_xi0(xil))
         lpxi0_grad = self.eval_logp_xi0_grad(xil)
         lpz0 = 0.0
         for i in range(N):
-- 
2.43.0


From 723d054f4207123b9f4c001e7f712fa6249c4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 16/39] fix: mlnlg: default get_rb_initial_grad has a spurious
 particle dimension

---
 pyparticleest/models/mlnlg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 29b7106..10aefdc 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1113,8 +1113,8 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
          P is a list of element-wise gradients for the covariance matrices
         """
         N = len(xi0)
-        return (N * (numpy.zeros((N, len(self.params), self.kf.lz, 1)),),
-                N * (numpy.zeros((N, len(self.params), self.kf.lz, self.kf.lz)),))
+        return (N * (numpy.zeros((len(self.params), self.kf.lz, 1)),),
+                N * (numpy.zeros((len(self.params), self.kf.lz, self.kf.lz)),))
 
     def eval_logp_xi0(self, xil):
         """
-- 
2.43.0


From b1e21ccd70cef8a8751842c7577f17c7e5d0255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 17/39] fix: mlnlg: gradients have one element per parameter

The default set_params stores the parameters as a column, which made all
analytic gradients columns and the gradient search fail.
---
 pyparticleest/models/mlnlg.py        | 10 +++++-----
 pyparticleest/paramest/interfaces.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 10aefdc..31f3272 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -717,7 +717,7 @@ class MixedNLGaussianSampled(RBPSBase):
         Args:
          - xil (list): Initial xi states
         """
-        return numpy.zeros(self.params.shape)
+        return numpy.zeros(len(self.params))
 
     def eval_logp_x0(self, particles, t):
         """
@@ -754,7 +754,7 @@ class MixedNLGaussianSampled(RBPSBase):
            of all particles, with first dimension = N (number of particles)
          - t (float): time stamp
         """
-        lpz0_grad = numpy.zeros(self.params.shape)
+        lpz0_grad = numpy.zeros(len(self.params))
 
         # Calculate l1 according to (19a)
         N = len(particles)
@@ -873,7 +873,7 @@ class MixedNLGaussianSampled(RBPSBase):
         """
         N = len(particles)
         lpxn = 0.0
-        lpxn_grad = numpy.zeros(self.params.shape)
+        lpxn_grad = numpy.zeros(len(self.params))
 
         (A_grad, f_grad, Q_grad) = self.get_pred_dynamics_grad(particles=particles, u=u, t=t)
         if (A_grad is None and f_grad is None and Q_grad is None):
@@ -997,7 +997,7 @@ class MixedNLGaussianSampled(RBPSBase):
 
         N = len(particles)
         logpy = 0.0
-        lpy_grad = numpy.zeros(self.params.shape)
+        lpy_grad = numpy.zeros(len(self.params))
         (y, Cz, hz, Rz, _, _, Rz_identical) = self.get_meas_dynamics_int(particles, y, t)
         (C_grad, h_grad, R_grad) = self.get_meas_dynamics_grad(particles=particles, y=y, t=t)
         if (C_grad is None and h_grad is None and R_grad is None):
@@ -1153,7 +1153,7 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
         """
         N = len(xil)
         (xi0_grad, Pxi0_grad) = self.get_xi_intitial_grad(N)
-        lpxi0_grad = numpy.zeros(self.params.shape)
+        lpxi0_grad = numpy.zeros(len(self.params))
         Pxi0cho = scipy.linalg.cho_factor(self.Pxi0, check_finite=False)
         for i in range(N):
             tmp = xil[i] - self.xi0
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index 0a26a18..fb35e0d 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -255,7 +255,7 @@ class ParamEstBaseNumeric(ParamEstIntFullTraj):
             val = -1.0 * (log_py + log_px0 + log_pxnext)
             return val
 
-        res = scipy.optimize.minimize(fun=fval, x0=self.params, method='l-bfgs-b', jac=False,
+        res = scipy.optimize.minimize(fun=fval, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=False,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
         return res.x
@@ -287,7 +287,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
 
-        res = scipy.optimize.minimize(fun=fval_grad, x0=self.params, method='l-bfgs-b', jac=True,
+        res = scipy.optimize.minimize(fun=fval_grad, x0=numpy.ravel(self.params), method='l-bfgs-b', jac=True,
                                       options=dict({'maxiter':10, 'maxfun':100}),
                                       bounds=self.param_bounds,)
 
-- 
2.43.0


From d5af286c547e185815138d3be96d524f6fa25a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 18/39] fix: paramest: keep the gradient of log p(x_0) separate
 for each parameter

The gradient was averaged over the parameters. Values may be given per
particle, so sum them like the value-only methods do, and let LTV average
log p(x_0) over the trajectories like MLNLG does.
---
 pyparticleest/models/ltv.py            | 3 +++
 pyparticleest/paramest/gradienttest.py | 2 +-
 pyparticleest/paramest/interfaces.py   | 6 +++---
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 665c586..96d72fe 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -353,6 +353,9 @@ class LTV(FFBSi, ParticleFiltering):
                 lpz0 += -0.5 * (ld + numpy.trace(tmp))
                 for j in range(len(self.params)):
                     lpz0_grad[j] -= 0.5 * mlnlg_compute.compute_logprod_derivative(P0cho, P0_grad[j], l1, l1_grad[j])
+            lpz0 /= N
+            lpz0_grad /= N
+
         return (lpz0, lpz0_grad)
 
 
diff --git a/pyparticleest/paramest/gradienttest.py b/pyparticleest/paramest/gradienttest.py
index ba96f4d..4e01c55 100644
--- a/pyparticleest/paramest/gradienttest.py
+++ b/pyparticleest/paramest/gradienttest.py
@@ -62,7 +62,7 @@ class GradientTest(ParamEstimation):
                                                                                      self.straj.t)
                 (tmp1, tmp2) = self.model.eval_logp_x0_val_grad(self.straj.traj[0].pa.part,
                                                                 self.straj.t[0])
-                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+                (_, grad_logp_x0) = (numpy.mean(tmp1), numpy.asarray(tmp2))
 
                 grad_logpy[k] = grad_logp_y
                 grad_logpxn[k] = grad_logp_xnext
diff --git a/pyparticleest/paramest/interfaces.py b/pyparticleest/paramest/interfaces.py
index fb35e0d..7e66077 100644
--- a/pyparticleest/paramest/interfaces.py
+++ b/pyparticleest/paramest/interfaces.py
@@ -147,7 +147,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                 (val, grad) = self.eval_logp_y_val_grad(sest[t],
                                                         straj.y[t],
                                                         straj.t[t])
-                logp_y += val
+                logp_y += numpy.sum(val)
                 logp_y_grad += grad
         return (logp_y / M, logp_y_grad / M)
 
@@ -162,7 +162,7 @@ class ParamEstInterface_GradientSearch(ParamEstInterface_GradientSearchFullTraj)
                                                         sest[t + 1],
                                                         straj.u[t],
                                                         straj.t[t])
-            logp_xnext += val
+            logp_xnext += numpy.sum(val)
             logp_xnext_grad += grad
 
         return (logp_xnext / M, logp_xnext_grad / M)
@@ -282,7 +282,7 @@ class ParamEstBaseNumericGrad(ParamEstInterface_GradientSearchFullTraj):
 
             (tmp1, tmp2) = self.eval_logp_x0_val_grad(straj.traj[0].pa.part,
                                                       straj.t[0])
-            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.mean(tmp2))
+            (logp_x0, grad_logp_x0) = (numpy.mean(tmp1), numpy.asarray(tmp2))
             val = -1.0 * (logp_y + logp_x0 + logp_xnext)
             grad = -1.0 * (grad_logp_y + grad_logp_xnext + grad_logp_x0)
             return (val, grad)
-- 
2.43.0


From 046f31bef0700cda394d8a22913cfa189babd0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 19/39] fix: mlnlg: default Pz0 raised AttributeError

---
 pyparticleest/models/mlnlg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 31f3272..b660df2 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -1043,12 +1043,11 @@ class MixedNLGaussianSampledInitialGaussian(MixedNLGaussianSampled):
             self.Pxi0 = numpy.zeros((len(self.xi0), len(self.xi0)))
         else:
             self.Pxi0 = numpy.copy((Pxi0))
+        self.z0 = numpy.copy(z0).reshape((-1, 1))
         if (Pz0 is None):
             self.Pz0 = numpy.zeros((len(self.z0), len(self.z0)))
         else:
             self.Pz0 = numpy.copy((Pz0))
-        self.z0 = numpy.copy(z0).reshape((-1, 1))
-        self.Pz0 = numpy.copy(Pz0)
         super(MixedNLGaussianSampledInitialGaussian, self).__init__(lxi=len(self.xi0),
                                                              lz=len(self.z0),
                                                              **kwargs)
-- 
2.43.0


From 41e2786f584677b1c6f0dafefa30bc6282634999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 20/39] fix: mlnlg: A_grad could not be used with particle
 dependent dynamics

calc_A_f_Q returns a list of matrices in that case, but compute_l2_grad_A
needs an array.
---
 pyparticleest/models/mlnlg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index b660df2..4c5491e 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -808,9 +808,12 @@ class MixedNLGaussianSampled(RBPSBase):
         tmp1 = numpy.zeros((self.lxi + self.kf.lz, self.lxi + self.kf.lz), dtype=numpy.double, order='C')
         tmp2 = numpy.zeros((self.lxi + self.kf.lz, self.kf.lz), dtype=numpy.double, order='C')
         if (f_grad is not None):
+            f_grad = numpy.asarray(f_grad, dtype=numpy.double)
             mlnlg_compute.compute_l2_grad_f(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
                               perr, f_grad, tmp1)
         if (A_grad is not None):
+            A = numpy.asarray(A, dtype=numpy.double)
+            A_grad = numpy.asarray(A_grad, dtype=numpy.double)
             mlnlg_compute.compute_l2_grad_A(N, len(self.params), self.lxi + self.kf.lz, diff_l2,
                               perr, self.lxi, Pn, zl, Pl, M, A, A_grad, tmp1, tmp2)
         return (l2, diff_l2)
-- 
2.43.0


From 8d53a8a8027b00d7d568767a90ea12918962fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 21/39] fix: rbpf: use the measurement of the last time step
 when smoothing

The measurement vector can be longer than the trajectory (preallocated, or
after a separate call to measure).
---
 pyparticleest/models/rbpf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/models/rbpf.py b/pyparticleest/models/rbpf.py
index 81c6612..9985861 100644
--- a/pyparticleest/models/rbpf.py
+++ b/pyparticleest/models/rbpf.py
@@ -418,8 +418,8 @@ class RBPSBase(RBPFBase, interfaces.FFBSiRS):
             xin = st.traj[i + 1].pa.part[:, :self.lxi].reshape((M, self.lxi, 1))
             self.cond_predict(particles, xin, u=st.u[i], t=st.t[i])
 
-        if (st.y[-1] is not None):
-            self.measure(particles, y=st.y[-1], t=st.t[-1])
+        if (st.y[T - 1] is not None):
+            self.measure(particles, y=st.y[T - 1], t=st.t[T - 1])
 
         straj[-1] = TrajectoryStep(ParticleApproximation(particles),
                                    st.traj[-1].ancestors)
-- 
2.43.0


From 7267d47353466071852973da534ea4f251b297bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 22/39] fix: filter: pfy proposed from the last element of the
 measurement vector

which is not the current measurement if the vector is preallocated.
---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 6a9fad4..61e5c81 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -455,7 +455,7 @@ class FFPropY(object):
         else:
             ancestors = numpy.arange(pa.num, dtype=int)
 
-        partn = self.model.propose_from_y(len(pa.part), y=yvec[-1], t=tvec[-1])
+        partn = self.model.propose_from_y(len(pa.part), y=yvec[cur_ind + 1], t=tvec[cur_ind + 1])
         find = numpy.arange(self.N, dtype=int)
 
         wn = self.model.logp_xnext_singlestep(part=traj[cur_ind].pa.part[ancestors],
-- 
2.43.0


From 5867261e3e92704cc162a665fe3a173349d89de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 23/39] fix: filter: a missing measurement (None) must not
 reweight in pf and apf

The conditional filters and the smoothers already skip measurements that are
None, pf passed it to the model and apf raised NameError.
---
 pyparticleest/filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 61e5c81..9b71ab4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -87,7 +87,7 @@ class ParticleFilter(object):
                          uvec=uvec, yvec=yvec,
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
-        if (yvec is not None):
+        if (yvec is not None and yvec[cur_ind + 1] is not None):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
@@ -685,6 +685,9 @@ class AuxiliaryParticleFilter(ParticleFilter):
             pa.w += l1w
             pa.w -= numpy.max(pa.w)
 
+        else:
+            l1w = numpy.zeros(pa.num)
+
         if (self.res and pa.calc_Neff() < self.res * pa.num):
             ancestors = pa.resample(self.model, pa.num)
             resampled = True
@@ -697,7 +700,7 @@ class AuxiliaryParticleFilter(ParticleFilter):
                          tvec=tvec, cur_ind=cur_ind,
                          pa=pa, inplace=True,)
 
-        if (yvec is not None):
+        if (yvec is not None and yvec[cur_ind + 1] is not None):
             pa = self.measure(traj=traj, ancestors=ancestors, pa=pa,
                               #There is no 'u' for last step yet
                               uvec=uvec, yvec=yvec, tvec=tvec, cur_ind=cur_ind + 1)
-- 
2.43.0


From 4d7523942b3003febb0f9505a220c5fc67d4c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 24/39] fix: filter: sample could return an index with zero
 weight

if the random number was exactly 0.0 and the first weights are zero.
---
 pyparticleest/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 9b71ab4..160afd4 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -19,7 +19,8 @@ def sample(w, n):
 
     wc = numpy.cumsum(w)
     wc /= wc[-1] # Normalize
-    u = (range(n) + numpy.random.rand(1)) / n
+    # u is in (0, 1], so that indices with zero weight are never selected
+    u = (numpy.arange(n) + 1.0 - numpy.random.rand(1)) / n
     return numpy.searchsorted(wc, u)
 
 
-- 
2.43.0


From fef4beb83527b648ce9a5be485c621c36b1110e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 25/39] fix: filter: find_best_particles returned the particles
 with the smallest weights

and sample failed if exp of all log weights underflows.
---
 pyparticleest/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 160afd4..b64dbe3 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1132,7 +1132,7 @@ class ParticleApproximation(object):
 
         Returns:
          (array-like) sampled particle"""
-        return self.part[sample(numpy.exp(self.w), 1)[0]]
+        return self.part[sample(numpy.exp(self.w - numpy.max(self.w)), 1)[0]]
 
     def find_best_particles(self, n=1):
         """
@@ -1143,5 +1143,5 @@ class ParticleApproximation(object):
 
         Returns:
          - (array-like) with len=n, representing the n most likely estimates """
-        indices = numpy.argsort(self.w)
+        indices = numpy.argsort(self.w)[::-1]
         return indices[range(n)]
-- 
2.43.0


From 195edbdad23890750ff3e764b3eabe5a9a92c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 26/39] fix: filter: csiras lost the reference trajectory at
 t=0 and its weights

The reference particle was not part of the initial estimate, and the weights
were never rescaled, so they under- or overflowed when exponentiated.
---
 pyparticleest/filter.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index b64dbe3..4091860 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -332,6 +332,21 @@ class CSIRAS(SIR):
         self.ctraj = cond_traj
         self.model = model
 
+    def create_initial_estimate(self, N):
+        """
+        Create initial particle estimate
+
+        Args:
+         - N (int): Number of particles
+
+        Returns:
+        (array-like): Sampled particles
+
+        """
+        part = self.model.create_initial_estimate(N)
+        part[-1] = self.ctraj[0].pa.part[0]
+        return part
+
     def forward(self, traj, yvec, uvec, tvec, cur_ind):
         """
         Forward the estimate stored in pa from t to t+1 using the motion model
@@ -390,6 +405,11 @@ class CSIRAS(SIR):
 
         pa.w = yw + nw - qw
 
+        # Keep the weights from going to -Inf
+        m = numpy.max(pa.w)
+        pa.w_offset += m
+        pa.w -= m
+
         pa.part[:] = pnext
         resampled = True
 
-- 
2.43.0


From e23cba6f85c8ed8208de22d209e414f12805f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 27/39] fix: smoother: mhbp proposed each trajectory only a
 fixed quantile of the ancestors

Systematic resampling returns sorted indices; without a permutation
trajectory j is never proposed ancestors outside the j:th stratum and does
not target the smoothing distribution.
---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 45983ce..164a8e9 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -473,7 +473,7 @@ class SmoothTrajectory(object):
 
                 if (t > 0):
                     # Propose new ancestors
-                    panc = pf.sample(tmp, M)
+                    panc = numpy.random.permutation(pf.sample(tmp, M))
 
 
                 (pnew, acc) = mc_step(model=self.model,
-- 
2.43.0


From 2e4ca5e74cd67d127abbec4206ec4b0c55edf598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 28/39] fix: smoother: mhips_reduced failed if the last
 measurement is missing

---
 pyparticleest/smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 164a8e9..799e9ed 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -773,7 +773,7 @@ def mc_step(model, part, ptraj, pind_prop, pind_curr, future_trajs, find,
              (logp_next_prop - logp_next_curr) +
              (logp_q_curr - logp_q_prop))
 
-    test = numpy.log(numpy.random.uniform(size=len(ratio)))
+    test = numpy.log(numpy.random.uniform(size=len(part)))
     acc = test < ratio
     curparty[acc] = xpropy[acc]
     return (curparty, acc)
-- 
2.43.0


From 4bcec2fc02308afb98ab94ccfd21d129ca5b7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 29/39] fix: kalman: measurement_diff failed for integer
 measurements

---
 pyparticleest/utils/ckalman.pyx | 2 +-
 pyparticleest/utils/kalman.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyparticleest/utils/ckalman.pyx b/pyparticleest/utils/ckalman.pyx
index d29558e..ff205bd 100644
--- a/pyparticleest/utils/ckalman.pyx
+++ b/pyparticleest/utils/ckalman.pyx
@@ -129,7 +129,7 @@ class KalmanFilter(object):
         """
         Calculate different between measurement and predicted measurement
         """
-        yhat = np.zeros_like(y)
+        yhat = np.zeros(np.shape(y))
         if (C is not None):
             yhat += C.dot(z)
         if (h_k is not None):
diff --git a/pyparticleest/utils/kalman.py b/pyparticleest/utils/kalman.py
index 129eb63..288a3ca 100644
--- a/pyparticleest/utils/kalman.py
+++ b/pyparticleest/utils/kalman.py
@@ -129,7 +129,7 @@ class KalmanFilter(object):
         """
         Calculate different between measurement and predicted measurement
         """
-        yhat = np.zeros_like(y)
+        yhat = np.zeros(np.shape(y))
         if (C is not None):
             yhat += C.dot(z)
         if (h_k is not None):
-- 
2.43.0


From 1094cbbeb9fddacecd333d35d89c6d0b009a3a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 30/39] fix: paramest: ParamEstimationSAEM used trajectory
 objects as estimates

concatenate and maximize_weighted need the (T, N, D) array, as in PSAEM.
---
 pyparticleest/paramest/paramest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 6738f6f..862b7ca 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -155,7 +155,7 @@ class ParamEstimationSAEM(Simulator):
                           meas_first=meas_first)
 
             w = numpy.ones((numt,)) / numt
-            newtrajs = numpy.copy(self.straj.traj)
+            newtrajs = self.get_smoothed_estimates()
             alpha = alpha_gen(i)
             if (weights is None):
                 weights = w
-- 
2.43.0


From 822e982ab1d13c764346f5c3884d6ebf3b9b50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 31/39] fix: paramest: PSAEM with raoblackwell used
 uninitialised memory

The array for the new trajectories was allocated but never filled.
---
 pyparticleest/paramest/paramest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/paramest/paramest.py b/pyparticleest/paramest/paramest.py
index 862b7ca..921a060 100644
--- a/pyparticleest/paramest/paramest.py
+++ b/pyparticleest/paramest/paramest.py
@@ -245,6 +245,8 @@ class ParamEstimationPSAEM(Simulator):
                 T = len(tmp)
                 D = tmp[0].pa.part.shape[1]
                 newtrajs = numpy.empty((T, N, D))
+                for t in range(T):
+                    newtrajs[t] = tmp[t].pa.part
 
             else:
                 newtrajs = self.get_smoothed_estimates()
-- 
2.43.0


From 79813adebe9c194e11a9057b6fdc65fd9dbf17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 32/39] fix: instrument: statistics are stored in self.oc, and
 hooks are optional

print_statistics and print_total_ops raised AttributeError, and smoothing
failed for models without post_smoothing and pre_mhips_pass.
---
 pyparticleest/utils/intrument.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pyparticleest/utils/intrument.py b/pyparticleest/utils/intrument.py
index 6afe3f3..9acda25 100644
--- a/pyparticleest/utils/intrument.py
+++ b/pyparticleest/utils/intrument.py
@@ -63,20 +63,20 @@ class Instrumenter(object):
 
     def print_statistics(self):
         print("Modelclass : %s" % type(self.model))
-        print("cnt_sample: %d" % self.cnt_sample)
-        print("cnt_update: %d" % self.cnt_update)
-        print("cnt_measure: %d" % self.cnt_measure)
-        print("cnt_pdfxn: %d" % self.cnt_pdfxn + self.cnt_pdfxn_full)
-        print("cnt_pdfxnmax: %d" % self.cnt_pdfxnmax)
-        print("cnt_propsmooth: %d" % self.cnt_propsmooth)
-        print("cnt_pdfsmooth: %d" % self.cnt_pdfsmooth)
+        print("cnt_sample: %d" % self.oc.cnt_sample)
+        print("cnt_update: %d" % self.oc.cnt_update)
+        print("cnt_measure: %d" % self.oc.cnt_measure)
+        print("cnt_pdfxn: %d" % (self.oc.cnt_pdfxn + self.oc.cnt_pdfxn_full))
+        print("cnt_pdfxnmax: %d" % self.oc.cnt_pdfxnmax)
+        print("cnt_propsmooth: %d" % self.oc.cnt_propsmooth)
+        print("cnt_pdfsmooth: %d" % self.oc.cnt_pdfsmooth)
 
 
     def print_total_ops(self):
-        print("total ops: %d" % (self.cnt_sample + self.cnt_update +
-                                 self.cnt_measure + self.cnt_pdfxn +
-                                 self.cnt_pdfxnmax + self.cnt_propsmooth +
-                                 self.cnt_pdfsmooth))
+        print("total ops: %d" % (self.oc.cnt_sample + self.oc.cnt_update +
+                                 self.oc.cnt_measure + self.oc.cnt_pdfxn +
+                                 self.oc.cnt_pdfxnmax + self.oc.cnt_propsmooth +
+                                 self.oc.cnt_pdfsmooth))
 
     def create_initial_estimate(self, N):
         """ Sample N particle from initial distribution """
@@ -148,9 +148,13 @@ class Instrumenter(object):
         return self.model.eval_1st_stage_weights(particles, u, y, t)
 
     def pre_mhips_pass(self, st):
+        if (not hasattr(self.model, 'pre_mhips_pass')):
+            return st.traj
         return self.model.pre_mhips_pass(st)
 
     def post_smoothing(self, st):
+        if (not hasattr(self.model, 'post_smoothing')):
+            return st.traj
         return self.model.post_smoothing(st)
 
     def eval_logp_x0(self, particles, t):
-- 
2.43.0


From eba6efdbb81f0a1718ebbff0a6f76d1fd9a650d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 33/39] fix: filter: measure must not reweight when the
 measurement is missing

Same as for forward; this is the first measurement when meas_first is used.
---
 pyparticleest/filter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 4091860..2dcebd3 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1006,10 +1006,11 @@ class ParticleTrajectory(object):
             self.yvec[self.ind] = y
             self.tvec[self.ind] = self.ind
 
-            self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
-                            pa=self.traj[-1].pa, uvec=self.uvec,
-                            yvec=self.yvec, tvec=self.tvec,
-                            cur_ind=self.ind, inplace=True)
+            if (y is not None):
+                self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
+                                pa=self.traj[-1].pa, uvec=self.uvec,
+                                yvec=self.yvec, tvec=self.tvec,
+                                cur_ind=self.ind, inplace=True)
 
     def __len__(self):
         return len(self.traj)
-- 
2.43.0


From 0e741ffb8b00e2f9dec3407a28fac563165a7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 34/39] fix: support more than one nonlinear state in MLNLG
 pred_xi

---
 pyparticleest/models/mlnlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index 4c5491e..facb92a 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -180,7 +180,7 @@ class MixedNLGaussianSampled(RBPSBase):
         # This is probably not so nice performance-wise, but will
         # work initially to profile where the bottlenecks are.
         for i in range(N):
-            xi_next[i] = Axi[i].dot(zl[i]) + fxi[i]
+            xi_next[i] = numpy.ravel(Axi[i].dot(zl[i]) + fxi[i])
         return xi_next
 
     def meas_xi_next(self, particles, xi_next, u, t):
-- 
2.43.0


From 98830b7130172fa40ed0dd2f4979f7b61816a197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 35/39] fix: hierarchial: the affine measurement term is
 optional

---
 pyparticleest/models/hierarchial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/models/hierarchial.py b/pyparticleest/models/hierarchial.py
index 3b731bb..8d418d6 100644
--- a/pyparticleest/models/hierarchial.py
+++ b/pyparticleest/models/hierarchial.py
@@ -53,7 +53,7 @@ class HierarchicalBase(RBPSBase):
         if (Cz is None):
             Cz = numpy.repeat(self.kf.C[numpy.newaxis, :, :], N, axis=0)
         if (hz is None):
-            hz = numpy.repeat(self.kf.h_k[numpy.newaxis, :, :], N, axis=0)
+            hz = N * (self.kf.h_k,)
         if (Rz is None):
             Rz = numpy.repeat(self.kf.R[numpy.newaxis, :, :], N, axis=0)
 
-- 
2.43.0


From d10ea3d46689b07e2cc6b3ae227405b8aecdb038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 36/39] fix: mlnlg: objective for models without linear
 measurement matrix

---
 pyparticleest/models/mlnlg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyparticleest/models/mlnlg.py b/pyparticleest/models/mlnlg.py
index facb92a..67f7f37 100644
--- a/pyparticleest/models/mlnlg.py
+++ b/pyparticleest/models/mlnlg.py
@@ -922,6 +922,8 @@ class MixedNLGaussianSampled(RBPSBase):
     def calc_l3(self, y, zl, Pl, Cl, hl):
         """ internal helper function """
         N = len(zl)
+        if (Cl[0] is None):
+            Cl = N * (numpy.zeros((len(y), self.kf.lz)),)
         l3 = numpy.zeros((N, len(y), len(y)))
         for i in range(N):
             meas_diff = self.kf.measurement_diff(y, zl[i], Cl[i], hl[i])
@@ -931,6 +933,8 @@ class MixedNLGaussianSampled(RBPSBase):
     def calc_l3_grad(self, y, zl, Pl, Cl, hl, C_grad, h_grad):
         """ internal helper function """
         N = len(zl)
+        if (Cl[0] is None):
+            Cl = N * (numpy.zeros((len(y), self.kf.lz)),)
         l3 = numpy.zeros((N, len(y), len(y)))
         diff_l3 = numpy.zeros((N, len(self.params), len(y), len(y)))
 
-- 
2.43.0


From b29f26236da49ae5dfda6bfcc89ea4674cf32cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 37/39] fix: ParticleTrajectory.measure passes only the past
 steps to the filter

The history handed to measure_full ends with the step just before the current
one, as documented and as done when measurements are given to forward. When
measure is called on an existing step the current step itself was included, so
the ancestor indices were looked up in the wrong step.
---
 pyparticleest/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyparticleest/filter.py b/pyparticleest/filter.py
index 2dcebd3..1e0119b 100644
--- a/pyparticleest/filter.py
+++ b/pyparticleest/filter.py
@@ -1007,7 +1007,7 @@ class ParticleTrajectory(object):
             self.tvec[self.ind] = self.ind
 
             if (y is not None):
-                self.pf.measure(traj=self.traj, ancestors=self.traj[-1].ancestors,
+                self.pf.measure(traj=self.traj[:-1], ancestors=self.traj[-1].ancestors,
                                 pa=self.traj[-1].pa, uvec=self.uvec,
                                 yvec=self.yvec, tvec=self.tvec,
                                 cur_ind=self.ind, inplace=True)
-- 
2.43.0


From 34f124331e6f0755e82564ec754136b5a897068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 38/39] fix: LTV gradient of log p(x_0) failed for models whose
 initial covariance has no gradient

---
 pyparticleest/models/ltv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyparticleest/models/ltv.py b/pyparticleest/models/ltv.py
index 96d72fe..55181b8 100644
--- a/pyparticleest/models/ltv.py
+++ b/pyparticleest/models/ltv.py
@@ -344,6 +344,8 @@ class LTV(FFBSi, ParticleFiltering):
         if (z0_grad is None and P0_grad is None):
             lpz0 = self.eval_logp_x0(particles, t)
         else:
+            if (P0_grad is None):
+                P0_grad = numpy.zeros((len(self.params), self.kf.lz, self.kf.lz))
             lpz0 = 0.0
             P0cho = scipy.linalg.cho_factor(self.P0)
             ld = numpy.sum(numpy.log(numpy.diagonal(P0cho[0]))) * 2
-- 
2.43.0


From 060f7221586290a76a8f2fcd595606b8f490728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 39/39] fix: ancestor and mhbp smoothers applied the model's
 post_smoothing hook twice

---
 pyparticleest/smoother.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pyparticleest/smoother.py b/pyparticleest/smoother.py
index 799e9ed..72f2f66 100644
--- a/pyparticleest/smoother.py
+++ b/pyparticleest/smoother.py
@@ -248,6 +248,7 @@ class SmoothTrajectory(object):
             raise ValueError('Unknown smoother: %s' % method)
 
         if hasattr(self.model, 'post_smoothing'):
+            # Do e.g. constrained smoothing for RBPS models
             self.traj = self.model.post_smoothing(self)
 
     def __len__(self):
@@ -263,10 +264,6 @@ class SmoothTrajectory(object):
         """
         self.traj = self.perform_ancestors_int(pt, M)
 
-        if hasattr(self.model, 'post_smoothing'):
-            # Do e.g. constrained smoothing for RBPS models
-            self.traj = self.model.post_smoothing(self)
-
     def calculate_ancestors(self, pt, ind):
         T = len(pt)
         M = len(ind)
@@ -503,10 +500,6 @@ class SmoothTrajectory(object):
 
         self.traj = straj
 
-        if hasattr(self.model, 'post_smoothing'):
-            # Do e.g. constrained smoothing for RBPS models
-            self.traj = self.model.post_smoothing(self)
-
 
     def perform_mhips_pass(self, options, reduced=False):
         """
-- 
2.43.0

