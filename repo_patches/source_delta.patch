From 80ac79bdd64c3773089cd508512046ad595512a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 01/37] fix: INTorus::operator+= reduced wrongly when its
 operand is the object itself

---
 include/INTorus.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/INTorus.hpp b/include/INTorus.hpp
index bf8b4db..f36cd2a 100644
--- a/include/INTorus.hpp
+++ b/include/INTorus.hpp
@@ -33,11 +33,8 @@ public:
 
     INTorus &operator+=(const INTorus &b)
     {
-        this->value += b.value;
-        *this = INTorus(
-            this->value + static_cast<uint32_t>(
-                              -(this->value < b.value || this->value >= P)),
-            false);
+        // b may alias *this, so b.value must not be read after an update.
+        *this = *this + b;
         return *this;
     }
 
-- 
2.43.0


From c06919109faff7d4dfaefae5a2f9a5f554f550f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 02/37] fix: shifts by 64 bits or more when converting small
 FFT results to torus64 words

---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 31b0f34..75b2047 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -333,7 +333,8 @@ void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double*
         // 1023 -> 52th pos -> 0th pos
         // 1075 -> 52th pos -> 52th pos
         int16_t trans = expo-1075;
-        uint64_t val2 = trans>0?(val<<trans):(val>>-trans);
+        // shifts by 64 bits or more are undefined; the result is 0 there
+        uint64_t val2 = (trans>63||trans<-63)?0:trans>0?(val<<trans):(val>>-trans);
         res[i]=(vals[i]>>63)?-val2:val2;
     }
     #endif
-- 
2.43.0


From ff31651fa9665c1cdba24d86f79dc972c33d9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 03/37] =?UTF-8?q?fix:=20tlweSymIntDecrypt=20used=20a=20dif?=
 =?UTF-8?q?ferent=20scale=20than=20tlweSymIntEncrypt=20where=20=CE=94=20is?=
 =?UTF-8?q?=20not=201/plain=5Fmodulus?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 include/tlwe.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tlwe.hpp b/include/tlwe.hpp
index 4eb9406..76f0b0b 100644
--- a/include/tlwe.hpp
+++ b/include/tlwe.hpp
@@ -109,7 +109,11 @@ typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 template <class P>
 typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 {
-    return tlweSymIntDecrypt<P, P::plain_modulus>(c, key);
+    const typename P::T phase = tlweSymPhase<P>(c, key);
+    const typename P::T res =
+        static_cast<typename P::T>(std::round(phase / P::Δ)) %
+        P::plain_modulus;
+    return res >= P::plain_modulus / 2 ? res - P::plain_modulus : res;
 }
 
 template <class P, std::make_signed_t<typename P::T> μ>
-- 
2.43.0


From 590b068d271f89f117853324cdfc12e6b173791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 04/37] fix: SecretKey left the level-3 key uninitialised

---
 src/key.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cpp b/src/key.cpp
index decd903..7c24e17 100644
--- a/src/key.cpp
+++ b/src/key.cpp
@@ -12,10 +12,13 @@ lweKey::lweKey()
                                                    lvl1param::key_value_max);
     std::uniform_int_distribution<int32_t> lvl2gen(lvl2param::key_value_min,
                                                    lvl2param::key_value_max);
+    std::uniform_int_distribution<int32_t> lvl3gen(lvl3param::key_value_min,
+                                                   lvl3param::key_value_max);
     for (typename lvl0param::T &i : lvl0) i = lvl0gen(generator);
     for (typename lvlhalfparam::T &i : lvlhalf) i = lvlhalfgen(generator);
     for (typename lvl1param::T &i : lvl1) i = lvl1gen(generator);
     for (typename lvl2param::T &i : lvl2) i = lvl2gen(generator);
+    for (typename lvl3param::T &i : lvl3) i = lvl3gen(generator);
 }
 
 template <class P>
-- 
2.43.0


From c61cbc6987d26f4f6fd9da7b0f96b343aa7c612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 05/37] fix: the FFT scaling factor was shared between
 transforms of different sizes

The factor 2/N was a function-local static, initialised by whichever
FFT_Processor called first. When level 1 and level 2 use the same word type
but different ring dimensions (USE_TFHE_RS), the other one was scaled wrongly.
---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 75b2047..557c2b8 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -134,7 +134,7 @@ void FFT_Processor_Spqlios::execute_reverse_torus64(double* res, const uint64_t*
 
 void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *a) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -180,7 +180,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *
 
 void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double *a, const uint32_t q) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -226,7 +226,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double
 
 void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const double *a, const double Δ) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -270,7 +270,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double* a) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
@@ -341,7 +341,7 @@ void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double*
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const double* a, const double Δ) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
-- 
2.43.0


From c516da2cabfa13d2a77b715d12b30420ea7db14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 06/37] fix: subset key switching ignored the number of mask
 polynomials

SubsetIdentityKeySwitch started at coefficient n instead of k*n, and
subikskgen left the subset key uninitialised past n, so the switch was wrong
for parameter sets with k > 1.
---
 include/cloudkey.hpp  | 3 ++-
 include/keyswitch.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 01bcce3..e4ea3e0 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -257,7 +257,8 @@ void subikskgen(SubsetKeySwitchingKey<P>& ksk,
                 const Key<typename P::domainP>& domainkey)
 {
     Key<typename P::targetP> subkey;
-    for (int i = 0; i < P::targetP::n; i++) subkey[i] = domainkey[i];
+    for (int i = 0; i < P::targetP::k * P::targetP::n; i++)
+        subkey[i] = domainkey[i];
     for (int i = 0;
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n; i++)
         for (int j = 0; j < P::t; j++)
diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 6d7d239..4a5e549 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -170,7 +170,7 @@ void SubsetIdentityKeySwitch(TLWE<typename P::targetP> &res,
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n;
          i++) {
         const typename P::domainP::T aibar =
-            tlwe[i + P::targetP::n] + prec_offset;
+            tlwe[i + P::targetP::k * P::targetP::n] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
                 (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
-- 
2.43.0


From ae918c6537059d48b2e4c86a6e550bfd6d86fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 07/37] fix: SubsetPrivKeySwitch shifted a target-level word by
 the source level's width

The digits are those of a targetP word, but the shift amount was computed from
domainP's width: for lvl21 a 32-bit word was shifted by up to 61 bits, which is
undefined and gives wrong digits where the compiler vectorises the loop.
---
 include/keyswitch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 4a5e549..a69e749 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -328,8 +328,8 @@ void SubsetPrivKeySwitch(TRLWE<typename P::targetP> &res,
         const typename P::targetP::T aibar = tlwe[i] + prec_offset;
 
         for (int j = 0; j < P::t; j++) {
-            const typename P::domainP::T aij =
-                (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
+            const typename P::targetP::T aij =
+                (aibar >> (std::numeric_limits<typename P::targetP::T>::digits -
                            (j + 1) * P::basebit)) &
                 mask;
 
-- 
2.43.0


From d3fecc142475cb5ed2b1a1f01af3c099845d72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 08/37] fix: TLWE2TRLWE key switching ignored all but the first
 mask block (k > 1)

TLWE2TRLWEIKS, its key type and its generator used domainP::n where the TLWE
dimension is k*n, so with k > 1 most of the mask was dropped and a mask word
was taken for the body. The body is also widened before it is shifted.
---
 include/cloudkey.hpp  |  2 +-
 include/keyswitch.hpp | 12 +++++++-----
 include/params.hpp    |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index e4ea3e0..bfd3219 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -148,7 +148,7 @@ void tlwe2trlweikskgen(TLWE2TRLWEIKSKey<P>& iksk,
                        const Key<typename P::domainP>& domainkey,
                        const Key<typename P::targetP>& targetkey)
 {
-    for (int i = 0; i < P::domainP::n; i++)
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++)
         for (int j = 0; j < P::t; j++)
             for (uint32_t k = 0; k < (1 << P::basebit) - 1; k++) {
                 Polynomial<typename P::targetP> p = {};
diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index a69e749..8b30994 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -198,15 +198,17 @@ void TLWE2TRLWEIKS(TRLWE<typename P::targetP> &res,
     constexpr uint32_t target_digit =
         std::numeric_limits<typename P::targetP::T>::digits;
     if constexpr (domain_digit == target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n];
+        res[P::targetP::k][0] = tlwe[P::domainP::k * P::domainP::n];
     else if constexpr (domain_digit > target_digit)
-        res[P::targetP::k][0] = (tlwe[P::domainP::n] +
+        res[P::targetP::k][0] = (tlwe[P::domainP::k * P::domainP::n] +
                                  (1ULL << (domain_digit - target_digit - 1))) >>
                                 (domain_digit - target_digit);
     else if constexpr (domain_digit < target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n]
-                                << (target_digit - domain_digit);
-    for (int i = 0; i < P::domainP::n; i++) {
+        res[P::targetP::k][0] =
+            static_cast<typename P::targetP::T>(
+                tlwe[P::domainP::k * P::domainP::n])
+            << (target_digit - domain_digit);
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++) {
         const typename P::domainP::T aibar = tlwe[i] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
diff --git a/include/params.hpp b/include/params.hpp
index f72dd33..adf2701 100644
--- a/include/params.hpp
+++ b/include/params.hpp
@@ -159,7 +159,7 @@ template <class P>
 using TLWE2TRLWEIKSKey = std::array<
     std::array<std::array<TRLWE<typename P::targetP>, (1 << P::basebit) - 1>,
                P::t>,
-    P::domainP::n>;
+    P::domainP::k * P::domainP::n>;
 template <class P>
 using EvalAutoKey = std::array<HalfTRGSWFFT<P>, P::k>;
 template <class P>
-- 
2.43.0


From e7026ff94734f91066e05d8b1578f1b2594b1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 09/37] fix: annihilation and packing indexed past the end of
 the first polynomial

AnnihilateKeySwitching and TLWE2TRLWEChengsPacking walked all polynomials of a
TRLWE sample through res[0][j], j up to (k+1)*n: out of bounds of the inner
array (undefined, and an abort with -D_GLIBCXX_ASSERTIONS).
---
 include/keyswitch.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 8b30994..91bbcec 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -248,9 +248,11 @@ void AnnihilateKeySwitching(TRLWE<P> &res, const TRLWE<P> &trlwe,
     res = trlwe;
     for (int i = 0; i < P::nbit; i++) {
         TRLWE<P> evaledauto;
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] += evaledauto[0][j];
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] += evaledauto[k][j];
     }
 }
 
@@ -382,9 +384,11 @@ void TLWE2TRLWEChengsPacking(TRLWE<P> &res, std::vector<TLWE<P>> &tlwe, const An
     PackLWEs<P>(res, tlwe, ahk, l, 0, 1);
     for (int i = 0; i < P::nbit - l; i++) {
         TRLWE<P> evaledauto;
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] += evaledauto[0][j];
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] += evaledauto[k][j];
     }
 }
 
-- 
2.43.0


From 6a9a7b8b44543012ac830140442c62388008bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 10/37] fix: BlindRotate with a TRLWE test vector did not
 compile

CMUXFFTwithPolynomialMulByXaiMinusOne takes the bootstrapping parameter set,
not its target ring, as in the polynomial overload.
---
 include/gatebootstrapping.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 20ae8a3..c39d8d6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -119,8 +119,7 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                 << bitwidth;
         if (ā == 0) continue;
         // Do not use CMUXFFT to avoid unnecessary copy.
-        CMUXFFTwithPolynomialMulByXaiMinusOne<typename P::targetP>(res,
-                                                                   bkfft[i], ā);
+        CMUXFFTwithPolynomialMulByXaiMinusOne<P>(res, bkfft[i], ā);
     }
 #endif
 }
-- 
2.43.0


From e247e5a018d0e83d5eff9572d3073c132b65970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 11/37] fix: GateBootstrappingNTT (bootstrap, then key switch)
 did not compile

Misspelt iksP::targetP made the overload unusable.
---
 include/gatebootstrapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index c39d8d6..1c717e6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -260,7 +260,7 @@ void GateBootstrapping(TLWE<typename iksP::domainP> &res,
 }
 
 template <class bkP, typename bkP::targetP::T μ, class iksP>
-void GateBootstrappingNTT(TLWE<typename iksP::tagetP> &res,
+void GateBootstrappingNTT(TLWE<typename iksP::targetP> &res,
                           const TLWE<typename bkP::domainP> &tlwe,
                           const EvalKey &ek)
 {
-- 
2.43.0


From 84f580bd4df69980df7c6e2f48eea32debf1b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 12/37] fix: multiplexers returning TRLWE samples mixed up
 components when k > 1

---
 include/gate.hpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/include/gate.hpp b/include/gate.hpp
index bd4bd2c..409b893 100644
--- a/include/gate.hpp
+++ b/include/gate.hpp
@@ -276,21 +276,21 @@ void HomMUXwoIKSandSE(TRLWE<typename bkP::targetP> &res,
 {
     TLWE<typename bkP::domainP> temp1;
     TLWE<typename bkP::domainP> temp0;
-    for (int i = 0; i <= bkP::domainP::n; i++) temp1[i] = cs[i] + c1[i];
-    for (int i = 0; i <= bkP::domainP::n; i++) temp0[i] = -cs[i] + c0[i];
-    temp1[lvl0param::n] -= bkP::domainP::μ;
-    temp0[lvl0param::n] -= bkP::domainP::μ;
+    for (int i = 0; i <= bkP::domainP::k * bkP::domainP::n; i++)
+        temp1[i] = cs[i] + c1[i];
+    for (int i = 0; i <= bkP::domainP::k * bkP::domainP::n; i++)
+        temp0[i] = -cs[i] + c0[i];
+    temp1[bkP::domainP::k * bkP::domainP::n] -= bkP::domainP::μ;
+    temp0[bkP::domainP::k * bkP::domainP::n] -= bkP::domainP::μ;
     TRLWE<typename bkP::targetP> and0;
     BlindRotate<bkP>(res, temp1, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
     BlindRotate<bkP>(and0, temp0, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
 
-    for (int i = 0; i < bkP::targetP::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += bkP::targetP::μ;
+    for (int k = 0; k < bkP::targetP::k + 1; k++)
+        for (int i = 0; i < bkP::targetP::n; i++) res[k][i] += and0[k][i];
+    res[bkP::targetP::k][0] += bkP::targetP::μ;
 }
 
 template <class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -312,11 +312,9 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
                      μpolygen<typename brP::targetP, brP::targetP::μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k < brP::targetP::k + 1; k++)
+        for (int i = 0; i < brP::targetP::n; i++) res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += brP::targetP::μ;
 }
 
 template <class iksP, class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -341,11 +339,9 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
                      μpolygen<typename brP::targetP, brP::targetP::μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k < brP::targetP::k + 1; k++)
+        for (int i = 0; i < brP::targetP::n; i++) res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += brP::targetP::μ;
 }
 
 void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
-- 
2.43.0


From 32067dc4196d4b5d9168655dd64e249df1631138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 13/37] fix: ExtractSwitchAndHomMUX added the dimension instead
 of the message to the output

---
 src/gate.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gate.cpp b/src/gate.cpp
index 6e7976d..efb2b0b 100644
--- a/src/gate.cpp
+++ b/src/gate.cpp
@@ -25,11 +25,9 @@ void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
     BlindRotate<lvl01param>(and0, c0, *ek.bkfftlvl01,
                             μpolygen<lvl1param, lvl1param::μ>());
 
-    for (int i = 0; i < lvl1param::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += lvl1param::n;
+    for (int k = 0; k < lvl1param::k + 1; k++)
+        for (int i = 0; i < lvl1param::n; i++) res[k][i] += and0[k][i];
+    res[lvl1param::k][0] += lvl1param::μ;
 }
 
 #define INST(P) template void HomCONSTANTONE<P>(TLWE<P> & res)
-- 
2.43.0


From 91ee0d3328d83008797d945864fe1680c317d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 14/37] fix: HomMUXwoSE ignored its message parameter

---
 include/gate.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/gate.hpp b/include/gate.hpp
index 409b893..e8987e7 100644
--- a/include/gate.hpp
+++ b/include/gate.hpp
@@ -308,13 +308,13 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     and0[brP::domainP::k * brP::domainP::n] -= brP::domainP::μ;
     TRLWE<typename brP::targetP> and0trlwe;
     BlindRotate<brP>(res, and1, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
 
     for (int k = 0; k < brP::targetP::k + 1; k++)
         for (int i = 0; i < brP::targetP::n; i++) res[k][i] += and0trlwe[k][i];
-    res[brP::targetP::k][0] += brP::targetP::μ;
+    res[brP::targetP::k][0] += μ;
 }
 
 template <class iksP, class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -335,13 +335,13 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     IdentityKeySwitch<iksP>(and0, temp0, ek.getiksk<iksP>());
     TRLWE<typename brP::targetP> and0trlwe;
     BlindRotate<brP>(res, and1, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
 
     for (int k = 0; k < brP::targetP::k + 1; k++)
         for (int i = 0; i < brP::targetP::n; i++) res[k][i] += and0trlwe[k][i];
-    res[brP::targetP::k][0] += brP::targetP::μ;
+    res[brP::targetP::k][0] += μ;
 }
 
 void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
-- 
2.43.0


From 7e2925ef73aa264fc6487b543d12a2b1ef73772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 15/37] fix: CircuitBootstrappingFFTwithInv built a wrong
 inverted TRGSW when k > 1

---
 include/circuitbootstrapping.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/circuitbootstrapping.hpp b/include/circuitbootstrapping.hpp
index 8406a78..c3fc5f6 100644
--- a/include/circuitbootstrapping.hpp
+++ b/include/circuitbootstrapping.hpp
@@ -154,10 +154,9 @@ void CircuitBootstrappingFFTwithInv(
             TwistIFFT<typename privksP::targetP>(trgswfft[i][j], trgsw[i][j]);
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
-    for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
-    }
+    for (int i = 0; i < privksP::targetP::l; i++)
+        for (int k = 0; k < privksP::targetP::k + 1; k++)
+            trgsw[i + k * privksP::targetP::l][k][0] += h[i];
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
             TwistIFFT<typename privksP::targetP>(invtrgswfft[i][j],
@@ -180,10 +179,9 @@ void CircuitBootstrappingFFTwithInv(
             TwistIFFT<typename privksP::targetP>(trgswfft[i][j], trgsw[i][j]);
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
-    for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
-    }
+    for (int i = 0; i < privksP::targetP::l; i++)
+        for (int k = 0; k < privksP::targetP::k + 1; k++)
+            trgsw[i + k * privksP::targetP::l][k][0] += h[i];
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
             TwistIFFT<typename privksP::targetP>(invtrgswfft[i][j],
-- 
2.43.0


From a02837ec35b87f297377c42d8758acac597edc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 16/37] fix: BFV arithmetic transformed into unaligned buffers,
 which crashes depending on the stack layout

---
 include/bfv++.hpp    | 8 +++++---
 include/cloudkey.hpp | 2 +-
 include/mulfft.hpp   | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/bfv++.hpp b/include/bfv++.hpp
index 8f21f12..c4bb06c 100644
--- a/include/bfv++.hpp
+++ b/include/bfv++.hpp
@@ -14,7 +14,9 @@ template <class P>
 void TRLWEMultWithoutRelinerization(TRLWE3<P> &res, const TRLWE<P> &a,
                                     const TRLWE<P> &b)
 {
-    PolynomialInFD<P> ffta, fftb, fftc;
+    alignas(64) PolynomialInFD<P> ffta;
+    alignas(64) PolynomialInFD<P> fftb;
+    alignas(64) PolynomialInFD<P> fftc;
     TwistIFFTUInt<P>(ffta, a[0]);
     TwistIFFTUInt<P>(fftb, b[1]);
     MulInFD<P::n>(fftc, ffta, fftb);
@@ -44,9 +46,9 @@ inline void relinKeySwitch(TRLWE<P> &res, const Polynomial<P> &poly,
 {
     DecomposedPolynomial<P> decvec;
     Decomposition<P>(decvec, poly);
-    PolynomialInFD<P> decvecfft;
+    alignas(64) PolynomialInFD<P> decvecfft;
     TwistIFFT<P>(decvecfft, decvec[0]);
-    TRLWEInFD<P> resfft;
+    alignas(64) TRLWEInFD<P> resfft;
     MulInFD<P::n>(resfft[0], decvecfft, relinkeyfft[0][0]);
     MulInFD<P::n>(resfft[1], decvecfft, relinkeyfft[0][1]);
     for (int i = 1; i < P::l; i++) {
diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index bfd3219..c8b63e8 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -333,7 +333,7 @@ template <class P>
 relinKeyFFT<P> relinKeyFFTgen(const Key<P>& key)
 {
     relinKey<P> relinkey = relinKeygen<P>(key);
-    relinKeyFFT<P> relinkeyfft;
+    alignas(64) relinKeyFFT<P> relinkeyfft;
     for (int i = 0; i < P::l; i++)
         for (int j = 0; j < 2; j++)
             TwistIFFT<P>(relinkeyfft[i][j], relinkey[i][j]);
diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 50c48ac..5ddd16c 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -320,7 +320,8 @@ inline void PolyMulRescaleUnsigned(Polynomial<P> &res, const Polynomial<P> &a,
                                    const Polynomial<P> &b)
 {
     // if constexpr (std::is_same_v<typename P::T, uint32_t>) {
-    PolynomialInFD<P> ffta, fftb;
+    alignas(64) PolynomialInFD<P> ffta;
+    alignas(64) PolynomialInFD<P> fftb;
     TwistIFFTUInt<P>(ffta, a);
     TwistIFFTUInt<P>(fftb, b);
     MulInFD<P::n>(ffta, fftb);
-- 
2.43.0


From 1bcb1eb84e7435a41f7a559b9b68e53bf9f1ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 17/37] fix: EvalKey::serialize lost the level-2-to-half and
 the subset switching keys

---
 include/cloudkey.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index c8b63e8..c8afe42 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -391,8 +391,8 @@ struct EvalKey {
         archive(params, bklvl01, bklvlh1, bklvl02, bklvlh2, bkfftlvl01,
                 bkfftlvlh1, bkfftlvl02, bkfftlvlh2, bknttlvl01, bknttlvlh1,
                 bknttlvl02, bknttlvlh2, iksklvl10, iksklvl1h, iksklvl20,
-                iksklvl21, iksklvl22, iksklvl31, privksklvl11, privksklvl21,
-                privksklvl22);
+                iksklvl2h, iksklvl21, iksklvl22, iksklvl31, subiksklvl21,
+                privksklvl11, privksklvl21, privksklvl22, subprivksklvl21);
     }
 
     // emplace keys
-- 
2.43.0


From 21dedd053ab509048573cd28cb55a0758be9b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 18/37] fix: IOpacket::serialize lost the level-1 TLWE ports

---
 include/io-packet.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/io-packet.hpp b/include/io-packet.hpp
index c31cc5c..cc5f927 100644
--- a/include/io-packet.hpp
+++ b/include/io-packet.hpp
@@ -32,7 +32,8 @@ struct IOpacket {
     template <class Archive>
     void serialize(Archive &archive)
     {
-        archive(tlwelvl0ports, trlwelvl2ports, trgswlvl2ports, numCycles);
+        archive(tlwelvl0ports, tlwelvl1ports, trlwelvl2ports, trgswlvl2ports,
+                numCycles);
     }
 };
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From 14dca9fe8fb82d31d5a29ca3c05597d2652dc826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:05 +0000
Subject: [PATCH 19/37] fix: lweParams never initialised the level-1 noise that
 it archives

---
 include/lweParams.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index 09f48e7..093f5ab 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -30,6 +30,17 @@ struct portablelvl0param {
     };
 };
 
+// Some parameter sets give the noise by something else than a standard
+// deviation.
+template <class P>
+double portableα()
+{
+    if constexpr (requires { P::α; })
+        return P::α;
+    else
+        return 0;
+}
+
 struct portablelvl1param {
     std::uint32_t nbit;  // dimension must be a power of 2 for ease of
                          // polynomial multiplication.
@@ -46,6 +57,7 @@ struct portablelvl1param {
           l(lvl1param::l),
           Bgbit(lvl1param::Bgbit),
           Bg(lvl1param::Bg),
+          α(portableα<lvl1param>()),
           approx_bit(std::numeric_limits<typename lvl1param::T>::digits)
     {
     }
-- 
2.43.0


From d88acc365364c455ec047f9a7e8f21cbf17fbceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:05 +0000
Subject: [PATCH 20/37] fix: serializing lweParams lost Bg, and
 portablelvl1param its noise

---
 include/lweParams.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index 093f5ab..74675e0 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -65,13 +65,13 @@ struct portablelvl1param {
     template <class Archive>
     void serialize(Archive& archive)
     {
-        archive(nbit, n, l, Bgbit, Bg, approx_bit);
+        archive(nbit, n, l, Bgbit, Bg, α, approx_bit);
     }
 
     bool operator==(const portablelvl1param& in) const
     {
         return (nbit == in.nbit) && (n == in.n) && (l == in.l) &&
-               (Bgbit == in.Bgbit) && (Bg == in.Bg) &&
+               (Bgbit == in.Bgbit) && (Bg == in.Bg) && (α == in.α) &&
                (approx_bit == in.approx_bit);
     };
 };
@@ -214,8 +214,8 @@ struct lweParams {
     void serialize(Archive& archive)
     {
         archive(lvl0.n, lvl0.α, lvl0.approx_bit, lvl1.nbit, lvl1.n, lvl1.l,
-                lvl1.Bgbit, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n, lvl2.l,
-                lvl2.Bgbit, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
+                lvl1.Bgbit, lvl1.Bg, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n, lvl2.l,
+                lvl2.Bgbit, lvl2.Bg, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
                 lvl10.α, lvl20.t, lvl20.basebit, lvl20.α, lvl21.t,
                 lvl21.basebit, lvl22.t, lvl22.basebit /*lvl22.α*/);
     }
-- 
2.43.0


From 8c8da2deae37799a3d8d34bfba837ea729ecf30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:05 +0000
Subject: [PATCH 21/37] fix: portablelvl22param could not be serialized

---
 include/lweParams.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index 74675e0..cd20e82 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -193,6 +193,12 @@ struct portablelvl22param {
     {
     }
 
+    template <class Archive>
+    void serialize(Archive& archive)
+    {
+        archive(t, basebit);
+    }
+
     bool operator==(const portablelvl22param& in) const
     {
         return (t == in.t) && (basebit == in.basebit);  // && (α == in.α);
-- 
2.43.0


From ef01235ea39c407b5496268e9688b558f0c6d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:20 +0000
Subject: [PATCH 22/37] fix: private key switching keys were allocated aligned
 and freed unaligned

They were allocated with new (std::align_val_t(64)) but, as their type is not
over-aligned, freed by the default deleter with the unaligned operator delete,
which is undefined behaviour.
---
 include/cloudkey.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index c8afe42..b12c48e 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -597,20 +597,17 @@ struct EvalKey {
     {
         if constexpr (std::is_same_v<P, lvl11param>) {
             privksklvl11[key] =
-                std::unique_ptr<PrivateKeySwitchingKey<lvl11param>>(new (
-                    std::align_val_t(64)) PrivateKeySwitchingKey<lvl11param>());
+                std::make_unique<PrivateKeySwitchingKey<lvl11param>>();
             privkskgen<lvl11param>(*privksklvl11[key], func, sk);
         }
         else if constexpr (std::is_same_v<P, lvl21param>) {
             privksklvl21[key] =
-                std::unique_ptr<PrivateKeySwitchingKey<lvl21param>>(new (
-                    std::align_val_t(64)) PrivateKeySwitchingKey<lvl21param>());
+                std::make_unique<PrivateKeySwitchingKey<lvl21param>>();
             privkskgen<lvl21param>(*privksklvl21[key], func, sk);
         }
         else if constexpr (std::is_same_v<P, lvl22param>) {
             privksklvl22[key] =
-                std::unique_ptr<PrivateKeySwitchingKey<lvl22param>>(new (
-                    std::align_val_t(64)) PrivateKeySwitchingKey<lvl22param>());
+                std::make_unique<PrivateKeySwitchingKey<lvl22param>>();
             privkskgen<lvl22param>(*privksklvl22[key], func, sk);
         }
         else
-- 
2.43.0


From 3c5059cd9d94c34c073836f96c2f737e86f498e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:38 +0000
Subject: [PATCH 23/37] fix: every thread leaked its FFT tables

The destructor deleted the tables through void pointers, which is undefined and
never freed the buffers they own, nor the bit reversal table: every thread that
used the library leaked them when it ended.
---
 thirdparties/spqlios/fft_processor_spqlios.cpp   |  5 +++--
 thirdparties/spqlios/fft_processor_spqlios.h     |  2 ++
 thirdparties/spqlios/spqlios-fft-impl-avx512.cpp | 12 ++++++++++++
 thirdparties/spqlios/spqlios-fft-impl.cpp        | 12 ++++++++++++
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 557c2b8..2c16689 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -370,8 +370,9 @@ void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const
 }
 
 FFT_Processor_Spqlios::~FFT_Processor_Spqlios() {
-    delete (tables_direct);
-    delete (tables_reverse);
+    delete_fft_table(tables_direct);
+    delete_ifft_table(tables_reverse);
+    delete[] reva;
     delete[] cosomegaxminus1;
 }
 
diff --git a/thirdparties/spqlios/fft_processor_spqlios.h b/thirdparties/spqlios/fft_processor_spqlios.h
index ae21e42..58ca5c4 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.h
+++ b/thirdparties/spqlios/fft_processor_spqlios.h
@@ -7,6 +7,8 @@ extern "C"{
     void *new_fft_table(int32_t nn);
     double *fft_table_get_buffer(const void *tables);
     void *new_ifft_table(int32_t nn);
+    void delete_fft_table(void *tables);
+    void delete_ifft_table(void *tables);
     double *ifft_table_get_buffer(const void *tables);
     void fft_model(const void *tables);
     void ifft_model(void *tables);
diff --git a/thirdparties/spqlios/spqlios-fft-impl-avx512.cpp b/thirdparties/spqlios/spqlios-fft-impl-avx512.cpp
index 7bfae69..521bde4 100644
--- a/thirdparties/spqlios/spqlios-fft-impl-avx512.cpp
+++ b/thirdparties/spqlios/spqlios-fft-impl-avx512.cpp
@@ -65,6 +65,12 @@ namespace {
   }
 }
 
+extern "C" void delete_fft_table(void *tables) {
+    FFT_PRECOMP *reps = (FFT_PRECOMP *) tables;
+    free(reps->buf);
+    free(reps);
+}
+
 extern "C" void *new_fft_table(int32_t nn) {
   assert(nn >= 16);
   assert((nn & (nn - 1)) == 0);
@@ -245,6 +251,12 @@ extern "C" void fft_model(const void *tables) {
   }
 }
 
+extern "C" void delete_ifft_table(void *tables) {
+    IFFT_PRECOMP *reps = (IFFT_PRECOMP *) tables;
+    free(reps->buf);
+    free(reps);
+}
+
 extern "C" void *new_ifft_table(int32_t nn) {
   assert(nn >= 16);
   assert((nn & (nn - 1)) == 0);
diff --git a/thirdparties/spqlios/spqlios-fft-impl.cpp b/thirdparties/spqlios/spqlios-fft-impl.cpp
index c6148fe..2d54695 100644
--- a/thirdparties/spqlios/spqlios-fft-impl.cpp
+++ b/thirdparties/spqlios/spqlios-fft-impl.cpp
@@ -155,6 +155,12 @@ namespace {
 
 }
 
+extern "C" void delete_fft_table(void *tables) {
+    FFT_PRECOMP *reps = (FFT_PRECOMP *) tables;
+    free(reps->buf);
+    delete reps;
+}
+
 extern "C" void *new_fft_table(int32_t nn) {
     require(nn >= 16, "n must be >=16");
     require((nn & (nn - 1)) == 0, "n must be a power of 2");
@@ -397,6 +403,12 @@ extern "C" void fft_model(const void *tables) {
 }
 
 
+extern "C" void delete_ifft_table(void *tables) {
+    IFFT_PRECOMP *reps = (IFFT_PRECOMP *) tables;
+    free(reps->buf);
+    delete reps;
+}
+
 extern "C" void *new_ifft_table(int32_t nn) {
     require(nn >= 16, "n must be >=16");
     require((nn & (nn - 1)) == 0, "n must be a power of 2");
-- 
2.43.0


From 73b7146f55a135ead0effb7752c5dcf3254b32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:53 +0000
Subject: [PATCH 24/37] fix: 64-bit Gaussian noise converted negative doubles
 to unsigned

The conversion of a negative floating-point value to an unsigned type is
undefined; go through int64_t, as the other word sizes do.
---
 include/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index 3255a0b..b172075 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -132,7 +132,8 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
         static const double _2p64 = std::pow(2., 64);
         std::normal_distribution<double> distribution(0., 1.0);
         const double val = stdev * distribution(generator) * _2p64;
-        const uint64_t ival = static_cast<typename P::T>(val);
+        const uint64_t ival =
+            static_cast<typename P::T>(static_cast<int64_t>(val));
         return ival + center;
     }
     else
-- 
2.43.0


From ca3087ed99e1c1a961b8585170fb37af13232cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 25/37] fix: the tables of X^a-1 were transformed in memory the
 FFT cannot use

XaittGen let TwistIFFT write into memory from make_unique, aligned to 16 bytes
only, while the FFT needs 32: with USE_TERNARY or USE_KEY_BUNDLE every program
crashed before main.
---
 include/mulfft.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 5ddd16c..117dd81 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -380,7 +380,10 @@ std::unique_ptr<std::array<PolynomialInFD<P>, 2 * P::n>> XaittGen()
             xai[i] += 1;
         else
             xai[i - P::n] -= 1;
-        TwistIFFT<P>((*xaitt)[i], xai);
+        // the FFT needs aligned memory, which make_unique does not promise
+        alignas(64) PolynomialInFD<P> xaiFD;
+        TwistIFFT<P>(xaiFD, xai);
+        (*xaitt)[i] = xaiFD;
     }
     return xaitt;
 }
-- 
2.43.0


From 948ad7d9b8ed264b2398cc3990d41e256e74c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:20 +0000
Subject: [PATCH 26/37] fix: key bundle bootstrapping overflowed the stack

The bundled keys (31 MB for level 1, 83 MB for level 2) were a local array:
every USE_KEY_BUNDLE bootstrapping crashed with the usual 8 MB stack.
---
 include/gatebootstrapping.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 1c717e6..657570f 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <limits>
+#include <memory>
 
 #include "cloudkey.hpp"
 #include "detwfa.hpp"
@@ -31,9 +32,10 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
     res = {};
     PolynomialMulByXai<typename P::targetP>(res[P::targetP::k], testvector, b̄);
 #ifdef USE_KEY_BUNDLE
-    alignas(64) std::array<TRGSWFFT<typename P::targetP>,
-                           P::domainP::k * P::domainP::n / P::Addends>
-        BKadded;
+    // tens of megabytes: too large for the stack
+    const auto BKadded = std::make_unique<
+        std::array<TRGSWFFT<typename P::targetP>,
+                   P::domainP::k * P::domainP::n / P::Addends>>();
 #pragma omp parallel for num_threads(8)
     for (int i = 0; i < P::domainP::k * P::domainP::n / P::Addends; i++) {
         constexpr typename P::domainP::T roundoffset =
@@ -48,10 +50,11 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                   (std::numeric_limits<typename P::domainP::T>::digits - 1 -
                    P::targetP::nbit + bitwidth)
                       << bitwidth;
-        KeyBundleFFT<P>(BKadded[i], bkfft[i], bara);
+        KeyBundleFFT<P>((*BKadded)[i], bkfft[i], bara);
     }
     for (int i = 0; i < P::domainP::k * P::domainP::n / P::Addends; i++) {
-        trgswfftExternalProduct<typename P::targetP>(res, res, BKadded[i]);
+        trgswfftExternalProduct<typename P::targetP>(res, res,
+                                                     (*BKadded)[i]);
     }
 #else
     for (int i = 0; i < P::domainP::k * P::domainP::n; i++) {
@@ -85,9 +88,10 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
     for (int k = 0; k < P::targetP::k + 1; k++)
         PolynomialMulByXai<typename P::targetP>(res[k], testvector[k], b̄);
 #ifdef USE_KEY_BUNDLE
-    alignas(64) std::array<TRGSWFFT<typename P::targetP>,
-                           P::domainP::k * P::domainP::n / P::Addends>
-        BKadded;
+    // tens of megabytes: too large for the stack
+    const auto BKadded = std::make_unique<
+        std::array<TRGSWFFT<typename P::targetP>,
+                   P::domainP::k * P::domainP::n / P::Addends>>();
 #pragma omp parallel for num_threads(4)
     for (int i = 0; i < P::domainP::k * P::domainP::n / P::Addends; i++) {
         constexpr typename P::domainP::T roundoffset =
@@ -102,10 +106,11 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                   (std::numeric_limits<typename P::domainP::T>::digits - 1 -
                    P::targetP::nbit + bitwidth)
                       << bitwidth;
-        KeyBundleFFT<P>(BKadded[i], bkfft[i], bara);
+        KeyBundleFFT<P>((*BKadded)[i], bkfft[i], bara);
     }
     for (int i = 0; i < P::domainP::k * P::domainP::n / P::Addends; i++) {
-        trgswfftExternalProduct<typename P::targetP>(res, res, BKadded[i]);
+        trgswfftExternalProduct<typename P::targetP>(res, res,
+                                                     (*BKadded)[i]);
     }
 #else
     for (int i = 0; i < P::domainP::k * P::domainP::n; i++) {
-- 
2.43.0


From 08c0528bd088007f1aaec9c95df7c917a9b97a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:01 +0000
Subject: [PATCH 27/37] fix: TLWE encryption with centered binomial noise
 shifted the message away

+ binds tighter than <<, so the message was shifted together with the noise.
---
 include/tlwe.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlwe.hpp b/include/tlwe.hpp
index 76f0b0b..1a1605d 100644
--- a/include/tlwe.hpp
+++ b/include/tlwe.hpp
@@ -30,8 +30,8 @@ TLWE<P> tlweSymEncrypt(const typename P::T p, const uint η, const Key<P> &key)
     std::uniform_int_distribution<typename P::T> Torusdist(0, P::q - 1);
     TLWE<P> res = {};
     res[P::k * P::n] =
-        p + CenteredBinomial<P>(η)
-        << (std::numeric_limits<typename P::T>::digits - P::qbit);
+        p + (CenteredBinomial<P>(η)
+             << (std::numeric_limits<typename P::T>::digits - P::qbit));
     for (int k = 0; k < P::k; k++)
         for (int i = 0; i < P::n; i++) {
             res[k * P::n + i] =
-- 
2.43.0


From 1604d1dae9c8d48cd85e3f9ee7dedf605b146ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 28/37] fix: ring encryption with centered binomial noise had
 almost no noise

numeric_limits<P>::digits, of the parameter set instead of its word type, is 0,
and negative noise was divided as an unsigned word.
---
 include/trlwe.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/trlwe.hpp b/include/trlwe.hpp
index 7e8b792..e4d39cb 100644
--- a/include/trlwe.hpp
+++ b/include/trlwe.hpp
@@ -29,7 +29,13 @@ TRLWE<P> trlweSymEncryptZero(const uint η, const Key<P> &key)
         0, std::numeric_limits<typename P::T>::max());
     alignas(64) TRLWE<P> c;
     for (typename P::T &i : c[P::k])
-        i = (CenteredBinomial<P>(η) << std::numeric_limits<P>::digits) / P::q;
+        // the noise is signed, and scaled from modulus q to the torus
+        i = static_cast<typename P::T>(
+            (static_cast<__int128_t>(
+                 static_cast<std::make_signed_t<typename P::T>>(
+                     CenteredBinomial<P>(η)))
+             << std::numeric_limits<typename P::T>::digits) /
+            P::q);
     for (int k = 0; k < P::k; k++) {
         for (typename P::T &i : c[k]) i = Torusdist(generator);
         alignas(64) std::array<typename P::T, P::n> partkey;
-- 
2.43.0


From b0be60c2939f7bc6d4a3590382cb292c6c35ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 29/37] fix: threads shared the random bits of centered
 binomial noise

The buffered bits were plain statics: concurrent encryptions raced on them and
could use the same noise.
---
 include/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index b172075..b949570 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -143,8 +143,8 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
 template <class P>
 inline typename P::T CenteredBinomial(uint η)
 {
-    static uint64_t buf;
-    static uint_fast8_t count = 64;
+    static thread_local uint64_t buf;
+    static thread_local uint_fast8_t count = 64;
     typename P::T acc = 0;
     std::uniform_int_distribution<uint64_t> dist(
         0, std::numeric_limits<uint64_t>::max());
-- 
2.43.0


From 2607281034aa85b595acc211180caa4d9e6c1ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:49 +0000
Subject: [PATCH 30/37] fix: emplacebk2bkfft converted only the first entry of
 every key element

Ternary keys and key bundles have more entries; the others stayed
uninitialised.
---
 include/cloudkey.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index b12c48e..08476e6 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -480,30 +480,34 @@ struct EvalKey {
         if constexpr (std::is_same_v<P, lvl01param>) {
             bkfftlvl01 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl01param>>();
-            for (int i = 0; i < lvl01param::domainP::n; i++)
-                (*bkfftlvl01)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][0]);
+            for (size_t i = 0; i < bkfftlvl01->size(); i++)
+                for (size_t j = 0; j < (*bklvl01)[i].size(); j++)
+                    (*bkfftlvl01)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh1param>) {
             bkfftlvlh1 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh1param>>();
-            for (int i = 0; i < lvlh1param::domainP::n; i++)
-                (*bkfftlvlh1)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][0]);
+            for (size_t i = 0; i < bkfftlvlh1->size(); i++)
+                for (size_t j = 0; j < (*bklvlh1)[i].size(); j++)
+                    (*bkfftlvlh1)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvl02param>) {
             bkfftlvl02 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl02param>>();
-            for (int i = 0; i < lvl02param::domainP::n; i++)
-                (*bkfftlvl02)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][0]);
+            for (size_t i = 0; i < bkfftlvl02->size(); i++)
+                for (size_t j = 0; j < (*bklvl02)[i].size(); j++)
+                    (*bkfftlvl02)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh2param>) {
             bkfftlvlh2 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh2param>>();
-            for (int i = 0; i < lvlh2param::domainP::n; i++)
-                (*bkfftlvlh2)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][0]);
+            for (size_t i = 0; i < bkfftlvlh2->size(); i++)
+                for (size_t j = 0; j < (*bklvlh2)[i].size(); j++)
+                    (*bkfftlvlh2)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][j]);
         }
         else
             static_assert(false_v<typename P::T>, "Not predefined parameter!");
-- 
2.43.0


From a6c91943ab14424e9352eb3c4c66cbdbcaa7952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 31/37] fix: ternary CMUX at level 2 used an uninitialised
 polynomial

PolynomialMulByXaiMinusOneInFD silently did nothing for any level but 1.
---
 include/mulfft.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 117dd81..22c08d3 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -424,6 +424,11 @@ inline void PolynomialMulByXaiMinusOneInFD(PolynomialInFD<P> &res,
     if constexpr (std::is_same_v<P, lvl1param>) {
         MulInFD<P::n>(res, poly, (*xaittlvl1)[index]);
     }
+    else if constexpr (std::is_same_v<P, lvl2param>) {
+        MulInFD<P::n>(res, poly, (*xaittlvl2)[index]);
+    }
+    else
+        static_assert(false_v<typename P::T>, "Undefined level!");
 }
 #endif
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From 5e2ca194e7ed2a340029294bdca097f6afe431ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 32/37] fix: ternary CMUX by exponent 0 read past the table of
 X^a-1

---
 include/mulfft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 22c08d3..38266eb 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -420,7 +420,7 @@ inline void PolynomialMulByXaiMinusOneInFD(PolynomialInFD<P> &res,
                                            const int a)
 {
     const int mod = a % (2 * P::n);
-    const int index = mod > 0 ? mod : mod + (2 * P::n);
+    const int index = mod >= 0 ? mod : mod + (2 * P::n);
     if constexpr (std::is_same_v<P, lvl1param>) {
         MulInFD<P::n>(res, poly, (*xaittlvl1)[index]);
     }
-- 
2.43.0


From 7075b9c5f276db3b81c5f0c2afe564f6c6ed8bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 33/37] fix: LROMUX ignored ring dimensions k > 1

Only the first two polynomials of a sample were rotated and accumulated,
whatever P::k: with the concrete and tfhe-rs parameters the others were
never initialised and the looked-up words were wrong.
---
 include/cmuxmem.hpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/cmuxmem.hpp b/include/cmuxmem.hpp
index db86fed..cd01c77 100644
--- a/include/cmuxmem.hpp
+++ b/include/cmuxmem.hpp
@@ -75,25 +75,23 @@ void LROMUX(vector<TLWE<P>> &res,
             const TRLWE<P> &data)
 {
     TRLWE<P> temp, acc;
-    PolynomialMulByXaiMinusOne<P>(temp[0], data[0], 2 * P::n - (P::n >> 1));
-    PolynomialMulByXaiMinusOne<P>(temp[1], data[1], 2 * P::n - (P::n >> 1));
+    for (int k = 0; k < P::k + 1; k++)
+        PolynomialMulByXaiMinusOne<P>(temp[k], data[k],
+                                      2 * P::n - (P::n >> 1));
     trgswfftExternalProduct<P>(temp, temp, address[width_bit - 1]);
-    for (int i = 0; i < P::n; i++) {
-        // initialize acc
-        acc[0][i] = temp[0][i] + data[0][i];
-        acc[1][i] = temp[1][i] + data[1][i];
-    }
+    for (int k = 0; k < P::k + 1; k++)
+        for (int i = 0; i < P::n; i++) {
+            // initialize acc
+            acc[k][i] = temp[k][i] + data[k][i];
+        }
 
     for (uint32_t bit = 2; bit <= width_bit; bit++) {
-        PolynomialMulByXaiMinusOne<P>(temp[0], acc[0],
-                                      2 * P::n - (P::n >> bit));
-        PolynomialMulByXaiMinusOne<P>(temp[1], acc[1],
-                                      2 * P::n - (P::n >> bit));
+        for (int k = 0; k < P::k + 1; k++)
+            PolynomialMulByXaiMinusOne<P>(temp[k], acc[k],
+                                          2 * P::n - (P::n >> bit));
         trgswfftExternalProduct<P>(temp, temp, address[width_bit - bit]);
-        for (int i = 0; i < P::n; i++) {
-            acc[0][i] += temp[0][i];
-            acc[1][i] += temp[1][i];
-        }
+        for (int k = 0; k < P::k + 1; k++)
+            for (int i = 0; i < P::n; i++) acc[k][i] += temp[k][i];
     }
 
     constexpr uint32_t word = 1 << (P::nbit - width_bit);
-- 
2.43.0


From 467fd983dbde64f0f05744adeadcfcaa11e2b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 34/37] fix: reading memories of 11 or more address bits
 overflowed the stack

---
 include/cmuxmem.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cmuxmem.hpp b/include/cmuxmem.hpp
index cd01c77..a7e93a7 100644
--- a/include/cmuxmem.hpp
+++ b/include/cmuxmem.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <bitset>
+#include <memory>
 
 #include "detwfa.hpp"
 
@@ -10,7 +11,9 @@ void RAMUX(TRLWE<P> &res, const array<TRGSWFFT<P>, address_bit> &invaddress,
            const array<TRLWE<P>, 1 << address_bit> &data)
 {
     constexpr uint32_t num_trlwe = 1 << address_bit;
-    array<TRLWE<P>, num_trlwe / 2> temp;
+    // megabytes for large memories: too large for the stack
+    const auto buffer = std::make_unique<array<TRLWE<P>, num_trlwe / 2>>();
+    array<TRLWE<P>, num_trlwe / 2> &temp = *buffer;
 
     for (uint32_t index = 0; index < num_trlwe / 2; index++) {
         CMUXFFT<P>(temp[index], invaddress[0], data[2 * index],
@@ -48,7 +51,9 @@ void UROMUX(TRLWE<P> &res, const array<TRGSWFFT<P>, address_bit> &invaddress,
 {
     constexpr uint32_t Ubit = address_bit - width_bit;
     constexpr uint32_t num_trlwe = 1 << (Ubit);
-    array<TRLWE<P>, num_trlwe / 2> temp;
+    // megabytes for large memories: too large for the stack
+    const auto buffer = std::make_unique<array<TRLWE<P>, num_trlwe / 2>>();
+    array<TRLWE<P>, num_trlwe / 2> &temp = *buffer;
 
     for (int index = 0; index < num_trlwe / 2; index++) {
         CMUXFFT<P>(temp[index], invaddress[width_bit], data[2 * index],
-- 
2.43.0


From 3279249b086750e9aa26a7419cedfa2722b565ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 35/37] fix: the inverse FFT required 32- or 64-byte alignment
 of its caller's buffers

PolynomialInFD is a plain std::array<double>; without -mavx in the client's
flags (or with USE_AVX512) the compiler aligns return slots and constants to
16 (32) bytes only, and vmovapd on them faulted.
---
 .../spqlios/fft_processor_spqlios.cpp         |  4 +-
 thirdparties/spqlios/spqlios-ifft-avx512.s    | 56 +++++++++----------
 thirdparties/spqlios/spqlios-ifft-fma.s       | 40 ++++++-------
 3 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 2c16689..16cbdf2 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -60,7 +60,7 @@ void FFT_Processor_Spqlios::execute_reverse_uint(double *res, const uint32_t *a)
         "0:\n"
                 "vmovupd (%1),%%ymm0\n"
                 "vcvtudq2pd %%ymm0,%%zmm1\n"
-                "vmovapd %%ymm1,(%0)\n"
+                "vmovupd %%ymm1,(%0)\n"
                 "addq $32,%1\n"
                 "addq $64,%0\n"
                 "cmpq %2,%1\n"
@@ -101,7 +101,7 @@ void FFT_Processor_Spqlios::execute_reverse_int(double *res, const int32_t *a) {
         "0:\n"
                 "vmovupd (%1),%%xmm0\n"
                 "vcvtdq2pd %%xmm0,%%ymm1\n"
-                "vmovapd %%ymm1,(%0)\n"
+                "vmovupd %%ymm1,(%0)\n"
                 "addq $16,%1\n"
                 "addq $32,%0\n"
                 "cmpq %2,%1\n"
diff --git a/thirdparties/spqlios/spqlios-ifft-avx512.s b/thirdparties/spqlios/spqlios-ifft-avx512.s
index 0b8762d..857d243 100644
--- a/thirdparties/spqlios/spqlios-ifft-avx512.s
+++ b/thirdparties/spqlios/spqlios-ifft-avx512.s
@@ -65,16 +65,16 @@ _ifft:
 	movq    $0, %rcx  /* Loop counter: Range [0, r10), step size 4 */
 	movq	%r8, %r11 /* r11 is the trig table pointer, step size 64 */
 firstloop:
-        vmovapd (%rdi,%rcx,8), %zmm0 /* real */
-        vmovapd (%rsi,%rcx,8), %zmm1 /* imag */
+        vmovupd (%rdi,%rcx,8), %zmm0 /* real */
+        vmovupd (%rsi,%rcx,8), %zmm1 /* imag */
 	vmovapd 0(%r11), %zmm2 /* cos */
 	vmovapd 64(%r11), %zmm3 /* sin */
         vmulpd  %zmm0, %zmm2, %zmm4 /* re*cos */
         vmulpd  %zmm0, %zmm3, %zmm5 /* re*sin */
 	vfnmadd231pd  %zmm1, %zmm3, %zmm4 /* re*cos - im*sin */
 	vfmadd231pd  %zmm1, %zmm2, %zmm5 /* re*sin + im*cos */
-	vmovapd %zmm4, (%rdi,%rcx,8)
-	vmovapd %zmm5, (%rsi,%rcx,8)
+	vmovupd %zmm4, (%rdi,%rcx,8)
+	vmovupd %zmm5, (%rsi,%rcx,8)
         //next iteration
 	leaq  128(%r11), %r11
 	addq	$8,%rcx
@@ -128,24 +128,24 @@ blockloop:
 	movq $0,%r9   /* r9 (off) */
 	movq %r8,%r14 /* r14 : cur_tt + 16*off */
 offloop:
-        vmovapd (%rax,%r9,8), %zmm0  /* re0 */
-        vmovapd (%rbx,%r9,8), %zmm1  /* im0 */
-        vmovapd (%rcx,%r9,8), %zmm2  /* re1 */
-        vmovapd (%rdx,%r9,8), %zmm3  /* im1 */
+        vmovupd (%rax,%r9,8), %zmm0  /* re0 */
+        vmovupd (%rbx,%r9,8), %zmm1  /* im0 */
+        vmovupd (%rcx,%r9,8), %zmm2  /* re1 */
+        vmovupd (%rdx,%r9,8), %zmm3  /* im1 */
 	vaddpd %zmm0,%zmm2,%zmm4 /* re0+re1 */
 	vaddpd %zmm1,%zmm3,%zmm5 /* im0+im1 */
 	vsubpd %zmm2,%zmm0,%zmm6 /* re2=re0-re1 */
 	vsubpd %zmm3,%zmm1,%zmm7 /* im2=im0-im1 */
-	vmovapd %zmm4,(%rax,%r9,8)
-        vmovapd %zmm5,(%rbx,%r9,8)
+	vmovupd %zmm4,(%rax,%r9,8)
+        vmovupd %zmm5,(%rbx,%r9,8)
         vmovapd (%r14),%zmm8 /* cos */
 	vmovapd 64(%r14),%zmm9 /* sin */
 	vmulpd %zmm6,%zmm8,%zmm4 /* re2.cos */
 	vfnmadd231pd %zmm7,%zmm9,%zmm4 /* re2.cos - im2.sin */
 	vmulpd %zmm6,%zmm9,%zmm5 /* re2.sin */
 	vfmadd231pd %zmm7,%zmm8,%zmm5 /* re2.sin + im2.cos */
-	vmovapd %zmm4,(%rcx,%r9,8)
-        vmovapd %zmm5,(%rdx,%r9,8)
+	vmovupd %zmm4,(%rcx,%r9,8)
+        vmovupd %zmm5,(%rdx,%r9,8)
         /* end of off loop */
        	leaq 128(%r14),%r14
         addq $8,%r9
@@ -172,24 +172,24 @@ blockloop2:
 	leaq (%rax,%r13,8),%rcx /* are + block + halfnn */
 	leaq (%rbx,%r13,8),%rdx /* aim + block + halfnn */
 	movq %r8,%r14 /* r14 : cur_tt + 16*off */
-        vmovapd (%rax), %ymm0  /* re0 */
-        vmovapd (%rbx), %ymm1  /* im0 */
-        vmovapd (%rcx), %ymm2  /* re1 */
-        vmovapd (%rdx), %ymm3  /* im1 */
+        vmovupd (%rax), %ymm0  /* re0 */
+        vmovupd (%rbx), %ymm1  /* im0 */
+        vmovupd (%rcx), %ymm2  /* re1 */
+        vmovupd (%rdx), %ymm3  /* im1 */
 	vaddpd %ymm0,%ymm2,%ymm4 /* re0+re1 */
 	vaddpd %ymm1,%ymm3,%ymm5 /* im0+im1 */
 	vsubpd %ymm2,%ymm0,%ymm6 /* re2=re0-re1 */
 	vsubpd %ymm3,%ymm1,%ymm7 /* im2=im0-im1 */
-	vmovapd %ymm4,(%rax)
-        vmovapd %ymm5,(%rbx)
+	vmovupd %ymm4,(%rax)
+        vmovupd %ymm5,(%rbx)
         vmovapd (%r14),%ymm8 /* cos */
 	vmovapd 32(%r14),%ymm9 /* sin */
 	vmulpd %ymm6,%ymm8,%ymm4 /* re2.cos */
 	vfnmadd231pd %ymm7,%ymm9,%ymm4 /* re2.cos - im2.sin */
 	vmulpd %ymm6,%ymm9,%ymm5 /* re2.sin */
 	vfmadd231pd %ymm7,%ymm8,%ymm5 /* re2.sin + im2.cos */
-	vmovapd %ymm4,(%rcx)
-        vmovapd %ymm5,(%rdx)
+	vmovupd %ymm4,(%rcx)
+        vmovupd %ymm5,(%rdx)
 
 	/* end of block loop */
 	addq %r12,%r11
@@ -235,8 +235,8 @@ blockloop2:
 	movq %rdi,%r11 /* r11 (are+block) */
 	movq %rsi,%r12 /* r12 (aim+block) */
 size4loop:
-	vmovapd (%r11),%zmm0 /* r0 r1 r2 r3 */
-	vmovapd (%r12),%zmm1 /* i0 i1 i2 i3 */
+	vmovupd (%r11),%zmm0 /* r0 r1 r2 r3 */
+	vmovupd (%r12),%zmm1 /* i0 i1 i2 i3 */
 
 	# vshufpd $10,%zmm1,%zmm0,%zmm2 /* r0 i1 r2 i3 */
 	# vshufpd $10,%zmm0,%zmm1,%zmm3 /* i0 r1 i2 r3 */
@@ -256,8 +256,8 @@ size4loop:
 	vmulpd	%zmm4,%zmm15,%zmm4 /* r0 r1 r0 -i1 */
 	vfmadd231pd	%zmm5,%zmm14,%zmm4 /* (r0 r1 r0 -i1) + (r2 r3 -r2 i3) */
 	vfmadd231pd	%zmm7,%zmm13,%zmm6 /* (i0 i1 i0 r1) + (i2 i3 -i2 -r3) */
-	vmovapd %zmm4,(%r11) 
-	vmovapd %zmm6,(%r12)
+	vmovupd %zmm4,(%r11) 
+	vmovupd %zmm6,(%r12)
         /* end of loop */
         leaq 64(%r11),%r11
         leaq 64(%r12),%r12
@@ -298,16 +298,16 @@ size4loop:
 	movq %rdi,%r11 /* r11 (are+block) */
 	movq %rsi,%r12 /* r12 (aim+block) */
 size2loop:
-	vmovapd (%r11),%zmm0 /* r0 r1 r2 r3 */
-	vmovapd (%r12),%zmm1 /* i0 i1 i2 i3 */
+	vmovupd (%r11),%zmm0 /* r0 r1 r2 r3 */
+	vmovupd (%r12),%zmm1 /* i0 i1 i2 i3 */
 	vshufpd $0,%zmm0,%zmm0,%zmm2 /* r0 r0 r2 r2 */
 	vshufpd $255,%zmm0,%zmm0,%zmm3 /* r1 r1 r3 r3 */
 	vshufpd $0,%zmm1,%zmm1,%zmm4 /* i0 i0 i2 i2 */
 	vshufpd $255,%zmm1,%zmm1,%zmm5 /* i1 i1 i3 i3 */
 	vfmadd231pd %zmm3,%zmm12,%zmm2 /* (r0 r0 r2 r2) + (r1 -r1 r3 -r3) */
 	vfmadd231pd %zmm5,%zmm12,%zmm4 /* (i0 i0 i2 i2) + (i1 -i1 i3 -i3) */ 
-	vmovapd %zmm2,(%r11)
-	vmovapd %zmm4,(%r12)
+	vmovupd %zmm2,(%r11)
+	vmovupd %zmm4,(%r12)
 	/* end of loop */
         leaq 64(%r11),%r11
         leaq 64(%r12),%r12
diff --git a/thirdparties/spqlios/spqlios-ifft-fma.s b/thirdparties/spqlios/spqlios-ifft-fma.s
index 95e7b48..868914a 100644
--- a/thirdparties/spqlios/spqlios-ifft-fma.s
+++ b/thirdparties/spqlios/spqlios-ifft-fma.s
@@ -65,16 +65,16 @@ _ifft:
 	movq    $0, %rcx  /* Loop counter: Range [0, r10), step size 4 */
 	movq	%r8, %r11 /* r11 is the trig table pointer, step size 64 */
 firstloop:
-        vmovapd (%rdi,%rcx,8), %ymm0 /* real */
-        vmovapd (%rsi,%rcx,8), %ymm1 /* imag */
+        vmovupd (%rdi,%rcx,8), %ymm0 /* real */
+        vmovupd (%rsi,%rcx,8), %ymm1 /* imag */
 	vmovapd 0(%r11), %ymm2 /* cos */
 	vmovapd 32(%r11), %ymm3 /* sin */
         vmulpd  %ymm0, %ymm2, %ymm4 /* re*cos */
         vmulpd  %ymm0, %ymm3, %ymm5 /* re*sin */
 	vfnmadd231pd  %ymm1, %ymm3, %ymm4 /* re*cos - im*sin */
 	vfmadd231pd  %ymm1, %ymm2, %ymm5 /* re*sin + im*cos */
-	vmovapd %ymm4, (%rdi,%rcx,8)
-	vmovapd %ymm5, (%rsi,%rcx,8)
+	vmovupd %ymm4, (%rdi,%rcx,8)
+	vmovupd %ymm5, (%rsi,%rcx,8)
         //next iteration
 	leaq    64(%r11), %r11
 	addq	$4,%rcx
@@ -128,24 +128,24 @@ blockloop:
 	movq $0,%r9   /* r9 (off) */
 	movq %r8,%r14 /* r14 : cur_tt + 16*off */
 offloop:
-        vmovapd (%rax,%r9,8), %ymm0  /* re0 */
-        vmovapd (%rbx,%r9,8), %ymm1  /* im0 */
-        vmovapd (%rcx,%r9,8), %ymm2  /* re1 */
-        vmovapd (%rdx,%r9,8), %ymm3  /* im1 */
+        vmovupd (%rax,%r9,8), %ymm0  /* re0 */
+        vmovupd (%rbx,%r9,8), %ymm1  /* im0 */
+        vmovupd (%rcx,%r9,8), %ymm2  /* re1 */
+        vmovupd (%rdx,%r9,8), %ymm3  /* im1 */
 	vaddpd %ymm0,%ymm2,%ymm4 /* re0+re1 */
 	vaddpd %ymm1,%ymm3,%ymm5 /* im0+im1 */
 	vsubpd %ymm2,%ymm0,%ymm6 /* re2=re0-re1 */
 	vsubpd %ymm3,%ymm1,%ymm7 /* im2=im0-im1 */
-	vmovapd %ymm4,(%rax,%r9,8)
-        vmovapd %ymm5,(%rbx,%r9,8)
+	vmovupd %ymm4,(%rax,%r9,8)
+        vmovupd %ymm5,(%rbx,%r9,8)
         vmovapd (%r14),%ymm8 /* cos */
 	vmovapd 32(%r14),%ymm9 /* sin */
 	vmulpd %ymm6,%ymm8,%ymm4 /* re2.cos */
 	vfnmadd231pd %ymm7,%ymm9,%ymm4 /* re2.cos - im2.sin */
 	vmulpd %ymm6,%ymm9,%ymm5 /* re2.sin */
 	vfmadd231pd %ymm7,%ymm8,%ymm5 /* re2.sin + im2.cos */
-	vmovapd %ymm4,(%rcx,%r9,8)
-        vmovapd %ymm5,(%rdx,%r9,8)
+	vmovupd %ymm4,(%rcx,%r9,8)
+        vmovupd %ymm5,(%rdx,%r9,8)
         /* end of off loop */
        	leaq 64(%r14),%r14
         addq $4,%r9
@@ -196,8 +196,8 @@ offloop:
 	movq %rdi,%r11 /* r11 (are+block) */
 	movq %rsi,%r12 /* r12 (aim+block) */
 size4loop:
-	vmovapd (%r11),%ymm0 /* r0 r1 r2 r3 */
-	vmovapd (%r12),%ymm1 /* i0 i1 i2 i3 */
+	vmovupd (%r11),%ymm0 /* r0 r1 r2 r3 */
+	vmovupd (%r12),%ymm1 /* i0 i1 i2 i3 */
 	vshufpd $10,%ymm1,%ymm0,%ymm2 /* r0 i1 r2 i3 */
 	vshufpd $10,%ymm0,%ymm1,%ymm3 /* i0 r1 i2 r3 */
 	vperm2f128 $32,%ymm2,%ymm0,%ymm4 /* r0 r1 r0 i1 */
@@ -207,8 +207,8 @@ size4loop:
 	vmulpd	%ymm4,%ymm15,%ymm4 /* r0 r1 r0 -i1 */
 	vfmadd231pd	%ymm5,%ymm14,%ymm4 /* (r0 r1 r0 -i1) + (r2 r3 -r2 i3) */
 	vfmadd231pd	%ymm7,%ymm13,%ymm6 /* (i0 i1 i0 r1) + (i2 i3 -i2 -r3) */
-	vmovapd %ymm4,(%r11) 
-	vmovapd %ymm6,(%r12)
+	vmovupd %ymm4,(%r11) 
+	vmovupd %ymm6,(%r12)
         /* end of loop */
         leaq 32(%r11),%r11
         leaq 32(%r12),%r12
@@ -249,16 +249,16 @@ size4loop:
 	movq %rdi,%r11 /* r11 (are+block) */
 	movq %rsi,%r12 /* r12 (aim+block) */
 size2loop:
-	vmovapd (%r11),%ymm0 /* r0 r1 r2 r3 */
-	vmovapd (%r12),%ymm1 /* i0 i1 i2 i3 */
+	vmovupd (%r11),%ymm0 /* r0 r1 r2 r3 */
+	vmovupd (%r12),%ymm1 /* i0 i1 i2 i3 */
 	vshufpd $0,%ymm0,%ymm0,%ymm2 /* r0 r0 r2 r2 */
 	vshufpd $15,%ymm0,%ymm0,%ymm3 /* r1 r1 r3 r3 */
 	vshufpd $0,%ymm1,%ymm1,%ymm4 /* i0 i0 i2 i2 */
 	vshufpd $15,%ymm1,%ymm1,%ymm5 /* i1 i1 i3 i3 */
 	vfmadd231pd %ymm3,%ymm12,%ymm2 /* (r0 r0 r2 r2) + (r1 -r1 r3 -r3) */
 	vfmadd231pd %ymm5,%ymm12,%ymm4 /* (i0 i0 i2 i2) + (i1 -i1 i3 -i3) */ 
-	vmovapd %ymm2,(%r11)
-	vmovapd %ymm4,(%r12)
+	vmovupd %ymm2,(%r11)
+	vmovupd %ymm4,(%r12)
 	/* end of loop */
         leaq 32(%r11),%r11
         leaq 32(%r12),%r12
-- 
2.43.0


From 85e88f489e29dbb732c1c6cddf9eecec433b51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 36/37] fix: CenteredBinomial used up its bit buffer without
 counting

count was never reset after a refill: it ran from 64 to 255 with a fresh word
for every bit and then read 64 bits from a word that had 63 left, so one bit
in 256 was always 0 and the noise was not centred.
---
 include/utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils.hpp b/include/utils.hpp
index b949570..f75c6b8 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -151,6 +151,7 @@ inline typename P::T CenteredBinomial(uint η)
     for (int i = 0; i < 2 * η; i++) {
         if (count >= 64) {
             buf = dist(generator);
+            count = 0;
         }
         acc += buf & 1;
         buf >>= 1;
-- 
2.43.0


From e1a686c9caa8b63f22b8815aedfc3dd1ffc7247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 37/37] fix: Gaussian noise was truncated towards zero instead
 of rounded

The conversion of a double to the torus dropped the fraction, so every
sample lost half a unit of magnitude: at level 0, whose standard deviation
is 6 units, the noise was about 6 % smaller than the parameter.
---
 include/utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index f75c6b8..de9bb87 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -102,13 +102,13 @@ public:
 // Double to Torus(32bit fixed-point number)
 inline uint16_t dtot16(double d)
 {
-    return int16_t(int64_t((d - int64_t(d)) * (1LL << 16)));
+    return int16_t(std::llround((d - int64_t(d)) * (1LL << 16)));
 }
 
 // Double to Torus(32bit fixed-point number)
 inline uint32_t dtot32(double d)
 {
-    return int32_t(int64_t((d - int64_t(d)) * (1LL << 32)));
+    return int32_t(std::llround((d - int64_t(d)) * (1LL << 32)));
 }
 
 // Modular Gaussian Distribution over Torus
@@ -133,7 +133,7 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
         std::normal_distribution<double> distribution(0., 1.0);
         const double val = stdev * distribution(generator) * _2p64;
         const uint64_t ival =
-            static_cast<typename P::T>(static_cast<int64_t>(val));
+            static_cast<typename P::T>(std::llround(val));
         return ival + center;
     }
     else
-- 
2.43.0

