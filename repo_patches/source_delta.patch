From b0a2a62399efa86ca92024cd1d744c4c83cb1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 01/22] fix: PQ_vectorize no longer overwrites the caller's
 aspect ratios

The working copy was an alias, so unit aspect ratios became 0.999 in the
caller's array and the exact sphere formula was never reached.
---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index eb34cc6..2923040 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -492,7 +492,7 @@ class EM:
         P = np.empty(dim)
         Q = np.empty(dim)
         theta = np.empty(dim)
-        alpha_ = alpha # copy and modfiy
+        alpha_ = np.array(alpha, dtype=float) # copy and modfiy
         alpha_[alpha==1]=0.999 # when alpha_ is 1, the f is nan
 
         theta[alpha_<1]=alpha_[alpha_<1]/(1.0 - alpha_[alpha_<1]**2)**(3.0/2.0) * (np.arccos(alpha_[alpha_<1]) - alpha_[alpha_<1]*np.sqrt(1.0 - alpha_[alpha_<1]**2))
-- 
2.43.0


From 8a4029862555006a52fa08cb30084e7e5f927963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 02/22] fix: SC_flex starts the shear iteration from the matrix
 shear modulus

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 2923040..0905a12 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -888,7 +888,7 @@ class EM:
         """    
         
         K_eff=Km
-        G_eff=Km
+        G_eff=Gm
         for i in range(iter_n):
             nu = 0.5* (3*K_eff- 2*G_eff)/(3*K_eff+G_eff) # Poisson's ratio
             S1 = 1/3 * (1+nu)/( 1-nu)
-- 
2.43.0


From 3071fb55e21305224c7347abfa003b95d5286b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 03/22] fix: PQ uses the inverse hyperbolic cosine for prolate
 inclusions

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 0905a12..b30b49b 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -754,7 +754,7 @@ class EM:
             if alpha<1:
                 theta= alpha/(1.0 - alpha**2)**(3.0/2.0) * (np.arccos(alpha) - alpha*np.sqrt(1.0 - alpha**2))
             else:
-                theta= alpha/(alpha**2-1)**(3.0/2.0) * ( alpha*(alpha**2-1)**0.5 -np.cosh(alpha)**-1)
+                theta= alpha/(alpha**2-1)**(3.0/2.0) * ( alpha*(alpha**2-1)**0.5 -np.arccosh(alpha))
             f= alpha**2*(3.0*theta - 2.0)/(1.0 - alpha**2)
             A = Gi/Gm - 1.0
             B = (Ki/Km - Gi/Gm)/3.0
-- 
2.43.0


From 560a4b09fb0545963cf0271f71af8265f7677a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 04/22] fix: HS bounds no longer divide by zero for equal or
 fluid phases

---
 rockphypy/EM.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index b30b49b..5e4e9ec 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -124,15 +124,15 @@ class EM:
         """        
 
         if bound == 'upper':
-            K=K1+ (1-f)/( (K2-K1)**-1 + f*(K1+4*G1/3)**-1 )
+            K=K1+ (1-f)*(K2-K1)/( 1 + f*(K2-K1)/(K1+4*G1/3) )
 
             Temp = (K1+2*G1)/(5*G1 *(K1+4*G1/3))
-            G=G1+(1-f)/( (G2-G1)**-1 + 2*f*Temp)
+            G=G1+(1-f)*(G2-G1)/( 1 + 2*f*(G2-G1)*Temp)
         else:
-            K=K2+ f/( (K1-K2)**-1 + (1-f)*(K2+4*G2/3)**-1 )
+            K=K2+ f*(K1-K2)/( 1 + (1-f)*(K1-K2)/(K2+4*G2/3) )
 
-            Temp = (K2+2*G2)/(5*G2 *(K2+4*G2/3))
-            G=G2+f/( (G1-G2)**-1 + 2*(1-f)*Temp)
+            Temp = 5*G2 *(K2+4*G2/3)
+            G=G2+f*(G1-G2)*Temp/( Temp + 2*(1-f)*(G1-G2)*(K2+2*G2))
         return K, G
 
     @staticmethod
-- 
2.43.0


From 1ce09b1306b14351e9a7e0eeaf1628fd65a9bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 05/22] fix: johnson accepts the documented 'iso_uni' path and
 its sigma11 has Ct and Cn terms summed

---
 rockphypy/GM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 2867e50..379a4b7 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -347,9 +347,9 @@ class GM:
         elif path == 'uni_iso':
             sigma33 = 2*Temp*(1/12*Ct+Cn*(alpha**2*I2+I4))
             sigma11 =Temp*(-1/12*Ct+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
-        elif path == 'iso-uni':
+        elif path in ('iso_uni', 'iso-uni'):
             sigma33 = 2*Temp*(Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I2+I4))
-            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4)))
+            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
 
         return C, sigma33,sigma11
 
-- 
2.43.0


From 9397e1f49fdbf1b0321646052fd2fe0b09d47f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 06/22] fix: Digby accepts an array of stresses and returns one
 root at zero stress

---
 rockphypy/GM.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 379a4b7..903ca3b 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -514,9 +514,9 @@ class GM:
         sigma =sigma/1000 # converts pressure unit to GPa
         nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture
         
-        coeff= np.array([1,0, 3/2* a_R**2, - 3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0)]) # coeffs of cubic equation
-        roots= np.roots(coeff)
-        root= roots.real[roots.real>=0]
+        const= np.atleast_1d(- 3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0))
+        # the cubic has a single real root, the other two have a smaller real part
+        root= np.array([np.roots([1,0, 3/2* a_R**2, c]).real.max() for c in const])
         b_R= np.sqrt(root**2+a_R**2)
         Sn_R= 4*G0*b_R/(1-nu)
         St_R= 8*G0*a_R/(2-nu)
-- 
2.43.0


From 4fcf9f82280a45686bb69a3696bf45345da44d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 07/22] fix: yu_segment_trend keeps the order of the depths and
 accepts scalars

---
 rockphypy/Emp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index c3a885d..0a2a55e 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -121,9 +121,8 @@ class Empirical:
             P wave velocities
         """        
         
-        V1=1707.998+0.66*Z[Z<=2630]
-        V2=1200.84+0.853*Z[Z>2630]
-        V= np.hstack((V1,V2))
+        Z= np.asanyarray(Z)
+        V= np.where(Z<=2630, 1707.998+0.66*Z, 1200.84+0.853*Z)
         return V
 
     @staticmethod
-- 
2.43.0


From 8e633443f497568bc3f194f62d77f1b72e573009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 08/22] fix: ramm_porosity_segment accepts scalar depths

---
 rockphypy/Emp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 0a2a55e..b613787 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -164,8 +164,7 @@ class Empirical:
         """        
         phi1= 45*np.exp(-0.00025*Z)
         phi2= 25-0.013*(Z-2500)
-        phi1[phi1>phi2]=phi2[phi2<phi1]
-        return phi1
+        return np.minimum(phi1,phi2)
 
     @staticmethod
     def empirical_StPeter(Pe, sample=1):
-- 
2.43.0


From b1483081b63c37ea969c7d0309cdaf2a966d7ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 09/22] fix: Japsen keeps the order and number of the depths
 and accepts scalars

---
 rockphypy/Emp.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index b613787..9acf9c0 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -281,11 +281,9 @@ class Empirical:
             Vp m/s
         """        
         
-        V1=1550+0.6*Z[Z<1393]
-        V2= -400+2*Z[(Z>=1393)&(Z<2000)]
-        V3=2600+0.5*Z[(Z>=2000)&(Z<3500)]
-        V4=3475+0.25*Z[(Z>=3500)&(Z<5300)]
-        V= np.hstack((V1,V2,V3,V4))
+        Z= np.asanyarray(Z)
+        V= np.select([Z<1393, Z<2000, Z<3500, Z<5300],
+                     [1550+0.6*Z, -400+2*Z, 2600+0.5*Z, 3475+0.25*Z], np.nan)
         return V
 
     @staticmethod    
-- 
2.43.0


From 62b2bbc13a7aa2a32c13c49bb7b3196f9f3eae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 10/22] fix: Fredrich surface area per volume is inversely
 proportional to grain size

See docs/source/errata.rst.
---
 rockphypy/Perm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Perm.py b/rockphypy/Perm.py
index 8b7b2fc..b218f64 100644
--- a/rockphypy/Perm.py
+++ b/rockphypy/Perm.py
@@ -216,7 +216,7 @@ class Permeability:
         # formation factor assuming tau^2=2.5
         F= 2.5/phi
         # pore surface area per unit sample volume
-        Sv= 6*(1-phi)*d
+        Sv= 6*(1-phi)/d
         # permeability
         k= 1/(b*F) * (phi/Sv)**2
         return k
-- 
2.43.0


From 9eaeab599a2aec3ce1e7f7f047b4196e4f871f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 11/22] fix: estimate_cem fills a plain array and honours the
 given cement seeds

Writing into DataFrame.values fails with current pandas, and the largest
seed, not a fixed 0.1, caps the estimate.
---
 rockphypy/QI.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 99bf26e..00e7649 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -558,21 +558,21 @@ class QI:
             VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
             df['vcem_vp'+str(i)]=VP
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
-        df['vcem']=np.nan
+        vcem_seeds=np.asanyarray(vcem_seeds)
+        vcem=np.full(len(df),np.nan)
         for i, val in enumerate(self.Vp):
-            array= np.array(df.iloc[i, :-1])
+            array= np.array(df.iloc[i, :])
             if val <= array[0]:
-                df.vcem.values[i]=0
-                #df.iloc[i]['vcem']=0
+                vcem[i]=0
             elif val >=array[-1]:
-                df.vcem.values[i]=0.1
-                #df.iloc[i]['vcem']=0.1
+                vcem[i]=vcem_seeds[-1]
             else:
-                big =  array[array<val].max()# the largest element of myArr less than myNumber
+                big =  array[array<=val].max()# the largest element of myArr not above myNumber
                 small = array[array>val].min()# the smallest element of myArr greater than myNumber
-                #df.vcem.values[i]
-                df.vcem.values[i]=(val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small]
-        return df.vcem.values
+                seed_big= vcem_seeds[array==big][0]
+                seed_small= vcem_seeds[array==small][0]
+                vcem[i]=(val-small)/(big-small)*(seed_big-seed_small)+seed_small
+        return vcem
     def cement_diag_plot(self,vcem,Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phib_p,phi_c,sigma,vsh,Cn, scheme,f):
         """_summary_
 
-- 
2.43.0


From ebc59e5dc4590d1d6ebe6ed0416484009904f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:13 +0000
Subject: [PATCH 12/22] fix: OConnell_Budiansky_fl converges from the uncracked
 limit instead of a fixed guess

---
 rockphypy/EM.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 5e4e9ec..5fdba90 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -687,7 +687,9 @@ class EM:
         nu0 = (3*K0-2*G0)/(6*K0+2*G0)#  Poisson ratio of the uncracked solid
         w = Kfl/alpha/K0
         # given crack density and w, solve for the D and nu_eff simulaneously using equations 23 and 25 in O’Connell and Budiansky, (1974)
-        nu_eff, D =  fsolve(EM.OC_R_funcs, (0.2, 0.9), args = (crd,nu0,w))
+        # start from the solution in the limit of vanishing crack density
+        c0 = 9/16 * (1-2*nu0)/(1-nu0**2)
+        nu_eff, D =  fsolve(EM.OC_R_funcs, (nu0, c0/(c0+3*w/(4*np.pi))), args = (crd,nu0,w))
 
         K_sat = K0*(1-16*(1-nu_eff**2)*crd*D/(9*(1-2*nu_eff)))
         G_sat = G0*(1-32/45*(1-nu_eff) *(D+ 3/(2-nu_eff))*crd)
@@ -716,7 +718,7 @@ class EM:
     
         nu_eff, D = params
 
-        eq1 = 45/16 * (nu_0-nu_eff)/(1-nu_eff**2)*(2-nu_eff)/(D*(1+3*nu_0)*(2-nu_eff)-2*(1-2*nu_0)) - crd   # eq 23 in OC&R, 1974
+        eq1 = 45/16 * (nu_0-nu_eff)*(2-nu_eff) - crd*(1-nu_eff**2)*(D*(1+3*nu_0)*(2-nu_eff)-2*(1-2*nu_0))   # eq 23 in OC&R, 1974, cleared of its denominator
         eq2 = crd * D**2-( crd+9/16 * (1-2*nu_eff)/(1-nu_0**2) + 3*w/(4*np.pi))*D + 9/16 * (1-2*nu_eff)/(1-nu_0**2) # eq 23 in OC&R, 1974
         return  [eq1,eq2]
 
-- 
2.43.0


From 68273236a59433d0d01c56968b5adfb6f887301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:44 +0000
Subject: [PATCH 13/22] fix: White_Dutta_Ode no longer overflows to NaN at high
 frequencies

---
 rockphypy/Fluid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index e20e80e..59b16a4 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -660,7 +660,8 @@ class Fluid:
         alpha2=(1j*omega*eta2/(kapa*KE2))**(1/2)
 
         Z1=eta1*a/kapa *(1-np.exp(-2*alpha1*a))/((alpha1*a-1)+(alpha1*a+1)*np.exp(-2*alpha1*a)   )
-        Z2=-eta2*a/kapa *(   (alpha2*b+1) +(alpha2*b-1)*np.exp(2*alpha2*(b-a) ) )/(  (alpha2*b+1)* (alpha2*a-1)- (alpha2*b-1)*(alpha2*a+1)*np.exp(2*alpha2*(b-a))  )
+        decay=np.exp(-2*alpha2*(b-a)) # decaying exponential, exp(2*alpha2*(b-a)) overflows at high frequencies
+        Z2=-eta2*a/kapa *(   (alpha2*b+1)*decay +(alpha2*b-1) )/(  (alpha2*b+1)* (alpha2*a-1)*decay- (alpha2*b-1)*(alpha2*a+1)  )
         Q1= (1-Kdry/K0)*KA1/K1
         Q2= (1-Kdry/K0)*KA2/K2
         W=3*a**2*(R1-R2)*(-Q1+Q2)/ (b**3*1j*omega*(Z1+Z2) )
-- 
2.43.0


From e60f3bf0115e5e6f4602cc00dc73712af1053f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:56 +0000
Subject: [PATCH 14/22] fix: Biot accepts a scalar frequency in the
 high-frequency regime

---
 rockphypy/Fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index 59b16a4..5adaa2d 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -85,7 +85,7 @@ class Fluid:
         # angular frequency of the plane wave, ω is the angular frequency of the plane wave.
         w = 2*np.pi*freq 
         # viscodynamic operator
-        zeta = np.sqrt(w*a**2*rhofl/eta)
+        zeta = np.atleast_1d(np.sqrt(w*a**2*rhofl/eta))
         T = np.zeros(zeta.size, dtype=complex)
         # asymptotic values for very high and very low frequencies
         # high frequency limit, T->(1+i)/sqrt(2)
-- 
2.43.0


From 23a5f135b2a27cebbb0dcdfb0257b7428870843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 15/22] fix: Biot no longer exchanges the fast and slow P waves
 for light fluids at low frequency

---
 rockphypy/Fluid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index 5adaa2d..6567827 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -102,6 +102,9 @@ class Fluid:
         # slowness squared
         P1_slowness2= (-Tb+np.sqrt(Tb**2-4*Ta*Tc) )/(2*Ta)
         P2_slowness2= (-Tb-np.sqrt(Tb**2-4*Ta*Tc) )/(2*Ta)
+        # the principal square root does not always separate the modes: the fast wave is the one with the smaller slowness
+        swap = np.sqrt(P1_slowness2).real > np.sqrt(P2_slowness2).real
+        P1_slowness2, P2_slowness2 = np.where(swap, P2_slowness2, P1_slowness2), np.where(swap, P1_slowness2, P2_slowness2)
         S_slowness2= (rho*q-rhofl**2)/(Gdry*q)
         # velocities and attenuations
         Vp_fast = 1/ np.sqrt(P1_slowness2).real
-- 
2.43.0


From ee4c6722b17f2a8e1ffd5283a8174ba645f35cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 16/22] fix: Biot no longer overflows to NaN just below the
 high-frequency regime

---
 rockphypy/Fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index 6567827..a21bb86 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -89,7 +89,7 @@ class Fluid:
         T = np.zeros(zeta.size, dtype=complex)
         # asymptotic values for very high and very low frequencies
         # high frequency limit, T->(1+i)/sqrt(2)
-        T[zeta<=1e3]=np.exp(1j*3*np.pi/4)*sp.jv(1,zeta[zeta<=1e3]*np.exp(-1j*np.pi/4) )/sp.jv(0, zeta[zeta<=1e3]*np.exp(-1j*np.pi/4) )
+        T[zeta<=1e3]=np.exp(1j*3*np.pi/4)*sp.jve(1,zeta[zeta<=1e3]*np.exp(-1j*np.pi/4) )/sp.jve(0, zeta[zeta<=1e3]*np.exp(-1j*np.pi/4) )
         T[zeta>1e3]=(1+1j)/np.sqrt(2)
         # low frequency limit F->1
         F = 1/4 * (zeta*T/(1+2*1j*T/zeta))
-- 
2.43.0


From 4052bf205436f96146b3bd73f445376a6db8eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 17/22] fix: silty_shale uses the shale shear modulus for both
 terms so pure silt is recovered

---
 rockphypy/GM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 903ca3b..b5e0108 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -66,7 +66,7 @@ class GM:
             K_sat, G_sat: elastic moduli of the saturated silty shale.
         """       
 
-        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gq/3) )**-1 -4*Gsh/3
+        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gsh/3) )**-1 -4*Gsh/3
         Zsh = Gsh/6 *(9*Ksh+8*Gsh)/(Ksh+2*Gsh)
         G_sat = (C/(Gsh+Zsh) + (1-C)/(Gq+Zsh))**-1 -Zsh
         return K_sat,G_sat
-- 
2.43.0


From 78a58869806d6c9865423e8b00b00009882e5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:10 +0000
Subject: [PATCH 18/22] fix: AVO_abe no longer divides by a vanishing intercept

---
 rockphypy/AVO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rockphypy/AVO.py b/rockphypy/AVO.py
index 74c60b0..6054e06 100644
--- a/rockphypy/AVO.py
+++ b/rockphypy/AVO.py
@@ -258,9 +258,10 @@ class AVO:
         poi2=((0.5*(vp2/vs2)**2)-1)/((vp2/vs2)**2-1)
         poia=(poi1+poi2)/2   
         Dpoi=(poi2-poi1)
-        Bx=(Dvp/vpa)/((Dvp/vpa)+(Dd/da))
-        Ax=Bx-(2*(1+Bx)*(1-2*poia)/(1-poia))
-        B1=(Ax*Ro)+(Dpoi/(1-poia)**2)
+        # Ax*Ro with Bx*Ro=0.5*Dvp/vpa, defined also for a vanishing intercept
+        BxRo=0.5*Dvp/vpa
+        AxRo=BxRo-(2*(Ro+BxRo)*(1-2*poia)/(1-poia))
+        B1=AxRo+(Dpoi/(1-poia)**2)
         # case 2 Castagna's paper->Shuey
         B2=(-2*vsa**2*Dd/(vpa**2*da)) + (0.5*Dvp/vpa)-(4*vsa*Dvs/(vpa**2))
 
-- 
2.43.0


From ea52ee80ea4ea651130c2bf057d250fe41f909df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 19/22] fix: start the self-consistent solver at the
 volume-weighted mean of the phases

The unweighted mean is far from the root when one phase dominates, and
fsolve then settles on a spurious root (a rock with 2 % of empty pores came
out with a negative bulk modulus).
---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 5fdba90..e9fc372 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -463,7 +463,7 @@ class EM:
         G= np.asanyarray(G)
         X=np.asanyarray(X)
         Alpha=np.asanyarray(Alpha)
-        K_sc,G_sc=  fsolve(EM.Berryman_func, (K.mean(), G.mean()), args = (K,G,X,Alpha))
+        K_sc,G_sc=  fsolve(EM.Berryman_func, (np.average(K,weights=X), np.average(G,weights=X)), args = (K,G,X,Alpha))
         return K_sc,G_sc
 
     @staticmethod
-- 
2.43.0


From 65d293c397fddfc4a0b8bb793b032785e3d4df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:41 +0000
Subject: [PATCH 20/22] fix: start the fluid-filled crack solver near the
 dry-crack Poisson ratio

From the uncracked Poisson ratio fsolve reached a root with negative moduli
for some crack densities above 0.4.
---
 rockphypy/EM.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index e9fc372..4dd2421 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -687,9 +687,10 @@ class EM:
         nu0 = (3*K0-2*G0)/(6*K0+2*G0)#  Poisson ratio of the uncracked solid
         w = Kfl/alpha/K0
         # given crack density and w, solve for the D and nu_eff simulaneously using equations 23 and 25 in O’Connell and Budiansky, (1974)
-        # start from the solution in the limit of vanishing crack density
+        # start from the solution in the limit of vanishing crack density, with the Poisson ratio of dry cracks scaled by D
         c0 = 9/16 * (1-2*nu0)/(1-nu0**2)
-        nu_eff, D =  fsolve(EM.OC_R_funcs, (nu0, c0/(c0+3*w/(4*np.pi))), args = (crd,nu0,w))
+        D0 = c0/(c0+3*w/(4*np.pi))
+        nu_eff, D =  fsolve(EM.OC_R_funcs, (nu0*(1-16/9*crd*D0), D0), args = (crd,nu0,w))
 
         K_sat = K0*(1-16*(1-nu_eff**2)*crd*D/(9*(1-2*nu_eff)))
         G_sat = G0*(1-32/45*(1-nu_eff) *(D+ 3/(2-nu_eff))*crd)
-- 
2.43.0


From 6c18445ddb291e016eec9bc37156ad62d7445349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:13 +0000
Subject: [PATCH 21/22] fix: elastic impedance of integer logs without
 normalisation

EI_ref raised numpy arrays to the integer power -1 for the SH-SH
impedance, which numpy refuses when the density log holds integers.
---
 rockphypy/AVO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/AVO.py b/rockphypy/AVO.py
index 6054e06..751f6bf 100644
--- a/rockphypy/AVO.py
+++ b/rockphypy/AVO.py
@@ -345,7 +345,7 @@ class AVO:
         EI_svsv= isn*Vs**B*rho**C
         # SH-SH
         B = -1+np.tan(theta_s)**2
-        C = -1
+        C = -1.0
         EI_shsh= isn*Vs**B*rho**C
         return EI_pp,EI_psv,EI_svp,EI_svsv,EI_shsh
 
-- 
2.43.0


From aee3ad85d10018a8c3300d3b9360d1d7619772d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:33 +0000
Subject: [PATCH 22/22] fix: kde_plot uses the colormap it is given

---
 rockphypy/QI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 00e7649..d6008b2 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -302,7 +302,7 @@ class QI:
             density=QI.normalize(density)
             # extremely low density is mapped to 0
             density[density<0.0001]=0
-            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
+            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap,shading='auto')
             cbar=plt.colorbar()
             cbar.set_label('KDE Normalized')
             plt.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
@@ -314,7 +314,7 @@ class QI:
             density=QI.normalize(density)
             # extremely low density is mapped to 0
             density[density<0.0001]=0
-            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
+            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap,shading='auto')
             cbar=plt.colorbar()
             cbar.set_label('KDE Normalized')
             plt.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
-- 
2.43.0

