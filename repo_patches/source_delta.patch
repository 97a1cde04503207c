From b93a6610f99e44167140d1540861de3f7cd31b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 1/9] fix: torus64 FFT conversion shifted by 64 or more bits
 for values near zero

---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 31b0f34..78feee8 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -333,7 +333,8 @@ void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double*
         // 1023 -> 52th pos -> 0th pos
         // 1075 -> 52th pos -> 52th pos
         int16_t trans = expo-1075;
-        uint64_t val2 = trans>0?(val<<trans):(val>>-trans);
+        // a shift by 64 or more is undefined: the integer part is 0 mod 2^64
+        uint64_t val2 = trans>0?(trans<64?val<<trans:0):(trans>-64?val>>-trans:0);
         res[i]=(vals[i]>>63)?-val2:val2;
     }
     #endif
-- 
2.43.0


From 6e074184c371b1ef2e2a6abaff68f6146bc58146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:30 +0000
Subject: [PATCH 2/9] fix: SubsetPrivKeySwitch extracted digits with the domain
 torus width

The input TLWE is over the target torus, so for lvl21 the shift count was
64 - (j+1)*basebit applied to a 32-bit value (undefined, yields 0 when the
compiler vectorises or folds it).
---
 include/keyswitch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 6d7d239..6fea63d 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -328,8 +328,8 @@ void SubsetPrivKeySwitch(TRLWE<typename P::targetP> &res,
         const typename P::targetP::T aibar = tlwe[i] + prec_offset;
 
         for (int j = 0; j < P::t; j++) {
-            const typename P::domainP::T aij =
-                (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
+            const typename P::targetP::T aij =
+                (aibar >> (std::numeric_limits<typename P::targetP::T>::digits -
                            (j + 1) * P::basebit)) &
                 mask;
 
-- 
2.43.0


From 97733c39f14a16dca2a2fede0282cb2afcf46b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 3/9] fix: BlindRotate of a ring test vector passed the wrong
 parameter set to the controlled rotation

---
 include/gatebootstrapping.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 20ae8a3..c39d8d6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -119,8 +119,7 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                 << bitwidth;
         if (ā == 0) continue;
         // Do not use CMUXFFT to avoid unnecessary copy.
-        CMUXFFTwithPolynomialMulByXaiMinusOne<typename P::targetP>(res,
-                                                                   bkfft[i], ā);
+        CMUXFFTwithPolynomialMulByXaiMinusOne<P>(res, bkfft[i], ā);
     }
 #endif
 }
-- 
2.43.0


From 926d96cdd684bb92df384a72470fb86fa2f14a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 4/9] fix: GateBootstrappingNTT (bootstrap then switch) named a
 non-existent member type and could not be instantiated

---
 include/gatebootstrapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index c39d8d6..1c717e6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -260,7 +260,7 @@ void GateBootstrapping(TLWE<typename iksP::domainP> &res,
 }
 
 template <class bkP, typename bkP::targetP::T μ, class iksP>
-void GateBootstrappingNTT(TLWE<typename iksP::tagetP> &res,
+void GateBootstrappingNTT(TLWE<typename iksP::targetP> &res,
                           const TLWE<typename bkP::domainP> &tlwe,
                           const EvalKey &ek)
 {
-- 
2.43.0


From c84b453f25f8ec58d32c11a7ff71f604ef034a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 5/9] fix: ExtractSwitchAndHomMUX recentred its result by the
 ring dimension instead of the message weight

---
 src/gate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate.cpp b/src/gate.cpp
index 6e7976d..aac14e2 100644
--- a/src/gate.cpp
+++ b/src/gate.cpp
@@ -29,7 +29,7 @@ void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
         res[0][i] += and0[0][i];
         res[1][i] += and0[1][i];
     };
-    res[1][0] += lvl1param::n;
+    res[1][0] += lvl1param::μ;
 }
 
 #define INST(P) template void HomCONSTANTONE<P>(TLWE<P> & res)
-- 
2.43.0


From d53c881e399366b8dd062f1a2cd82c22705e2b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 6/9] fix: EvalKey::serialize left out iksklvl2h, subiksklvl21
 and subprivksklvl21

---
 include/cloudkey.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 01bcce3..df825be 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -390,8 +390,8 @@ struct EvalKey {
         archive(params, bklvl01, bklvlh1, bklvl02, bklvlh2, bkfftlvl01,
                 bkfftlvlh1, bkfftlvl02, bkfftlvlh2, bknttlvl01, bknttlvlh1,
                 bknttlvl02, bknttlvlh2, iksklvl10, iksklvl1h, iksklvl20,
-                iksklvl21, iksklvl22, iksklvl31, privksklvl11, privksklvl21,
-                privksklvl22);
+                iksklvl2h, iksklvl21, iksklvl22, iksklvl31, subiksklvl21,
+                privksklvl11, privksklvl21, privksklvl22, subprivksklvl21);
     }
 
     // emplace keys
-- 
2.43.0


From b367b38df3a738142a566d0efc1c4267f65b494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 7/9] fix: IOpacket::serialize left out tlwelvl1ports

---
 include/io-packet.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/io-packet.hpp b/include/io-packet.hpp
index c31cc5c..cc5f927 100644
--- a/include/io-packet.hpp
+++ b/include/io-packet.hpp
@@ -32,7 +32,8 @@ struct IOpacket {
     template <class Archive>
     void serialize(Archive &archive)
     {
-        archive(tlwelvl0ports, trlwelvl2ports, trgswlvl2ports, numCycles);
+        archive(tlwelvl0ports, tlwelvl1ports, trlwelvl2ports, trgswlvl2ports,
+                numCycles);
     }
 };
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From 8ea91012523f4c7081129fe50497035a03a457d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 8/9] fix: SecretKey left the level 3 key uninitialised

---
 src/key.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cpp b/src/key.cpp
index decd903..7c24e17 100644
--- a/src/key.cpp
+++ b/src/key.cpp
@@ -12,10 +12,13 @@ lweKey::lweKey()
                                                    lvl1param::key_value_max);
     std::uniform_int_distribution<int32_t> lvl2gen(lvl2param::key_value_min,
                                                    lvl2param::key_value_max);
+    std::uniform_int_distribution<int32_t> lvl3gen(lvl3param::key_value_min,
+                                                   lvl3param::key_value_max);
     for (typename lvl0param::T &i : lvl0) i = lvl0gen(generator);
     for (typename lvlhalfparam::T &i : lvlhalf) i = lvlhalfgen(generator);
     for (typename lvl1param::T &i : lvl1) i = lvl1gen(generator);
     for (typename lvl2param::T &i : lvl2) i = lvl2gen(generator);
+    for (typename lvl3param::T &i : lvl3) i = lvl3gen(generator);
 }
 
 template <class P>
-- 
2.43.0


From 7b996abb9a6ec271bb496e8b6c033e48106687ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 9/9] fix: the serialized parameter record held an
 uninitialised level 1 noise width

---
 include/lweParams.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index 09f48e7..a0f21e0 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -30,6 +30,16 @@ struct portablelvl0param {
     };
 };
 
+// Fresh noise of a ring parameter set, 0 if it is not given as a Gaussian width
+template <class P>
+double freshnoise()
+{
+    if constexpr (P::errordist == ErrorDistribution::ModularGaussian)
+        return P::α;
+    else
+        return 0;
+}
+
 struct portablelvl1param {
     std::uint32_t nbit;  // dimension must be a power of 2 for ease of
                          // polynomial multiplication.
@@ -46,6 +56,7 @@ struct portablelvl1param {
           l(lvl1param::l),
           Bgbit(lvl1param::Bgbit),
           Bg(lvl1param::Bg),
+          α(freshnoise<lvl1param>()),
           approx_bit(std::numeric_limits<typename lvl1param::T>::digits)
     {
     }
-- 
2.43.0

