From 4b5d508eaecf8c52bc5740e21a949fc4571a7079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 01/38] fix: decode scalar integer ciphertexts with the step
 they were encoded with
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

tlweSymIntDecrypt<P> divided by 2^w / plain_modulus while tlweSymIntEncrypt<P>
multiplies by P::Δ; the two differ at lvl2 and lvl3.
---
 include/tlwe.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tlwe.hpp b/include/tlwe.hpp
index 4eb9406..4b28e1a 100644
--- a/include/tlwe.hpp
+++ b/include/tlwe.hpp
@@ -109,7 +109,12 @@ typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 template <class P>
 typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 {
-    return tlweSymIntDecrypt<P, P::plain_modulus>(c, key);
+    // The encoding step is P::Δ, which leaves a padding bit at some levels
+    const typename P::T phase = tlweSymPhase<P>(c, key);
+    const typename P::T res =
+        static_cast<typename P::T>(
+            static_cast<uint64_t>(std::round(phase / P::Δ)) % P::plain_modulus);
+    return res >= P::plain_modulus / 2 ? res - P::plain_modulus : res;
 }
 
 template <class P, std::make_signed_t<typename P::T> μ>
-- 
2.43.0


From b19a8ee2b216f58bab77c17396d9f04bdd1df0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 02/38] fix: generate the lvl3 secret key

---
 src/key.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cpp b/src/key.cpp
index decd903..7c24e17 100644
--- a/src/key.cpp
+++ b/src/key.cpp
@@ -12,10 +12,13 @@ lweKey::lweKey()
                                                    lvl1param::key_value_max);
     std::uniform_int_distribution<int32_t> lvl2gen(lvl2param::key_value_min,
                                                    lvl2param::key_value_max);
+    std::uniform_int_distribution<int32_t> lvl3gen(lvl3param::key_value_min,
+                                                   lvl3param::key_value_max);
     for (typename lvl0param::T &i : lvl0) i = lvl0gen(generator);
     for (typename lvlhalfparam::T &i : lvlhalf) i = lvlhalfgen(generator);
     for (typename lvl1param::T &i : lvl1) i = lvl1gen(generator);
     for (typename lvl2param::T &i : lvl2) i = lvl2gen(generator);
+    for (typename lvl3param::T &i : lvl3) i = lvl3gen(generator);
 }
 
 template <class P>
-- 
2.43.0


From 64a773c913e4b06a9f1d124c9d99b927b83c24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 03/38] =?UTF-8?q?fix:=20ExtractSwitchAndHomMUX=20adds=20?=
 =?UTF-8?q?=CE=BC,=20not=20the=20dimension,=20to=20the=20selected=20value?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/gate.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/gate.cpp b/src/gate.cpp
index 6e7976d..c7339da 100644
--- a/src/gate.cpp
+++ b/src/gate.cpp
@@ -15,21 +15,19 @@ void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
     SampleExtractIndex<lvl1param>(templvl1, c0r, 0);
     IdentityKeySwitch<lvl10param>(c0, templvl1, *ek.iksklvl10);
 
-    for (int i = 0; i <= lvl0param::n; i++) c1[i] += cs[i];
-    for (int i = 0; i <= lvl0param::n; i++) c0[i] -= cs[i];
-    c1[lvl0param::n] -= lvl0param::μ;
-    c0[lvl0param::n] -= lvl0param::μ;
+    for (int i = 0; i <= lvl0param::k * lvl0param::n; i++) c1[i] += cs[i];
+    for (int i = 0; i <= lvl0param::k * lvl0param::n; i++) c0[i] -= cs[i];
+    c1[lvl0param::k * lvl0param::n] -= lvl0param::μ;
+    c0[lvl0param::k * lvl0param::n] -= lvl0param::μ;
     TRLWE<lvl1param> and0;
     BlindRotate<lvl01param>(res, c1, *ek.bkfftlvl01,
                             μpolygen<lvl1param, lvl1param::μ>());
     BlindRotate<lvl01param>(and0, c0, *ek.bkfftlvl01,
                             μpolygen<lvl1param, lvl1param::μ>());
 
-    for (int i = 0; i < lvl1param::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += lvl1param::n;
+    for (int k = 0; k <= lvl1param::k; k++)
+        for (int i = 0; i < lvl1param::n; i++) res[k][i] += and0[k][i];
+    res[lvl1param::k][0] += lvl1param::μ;
 }
 
 #define INST(P) template void HomCONSTANTONE<P>(TLWE<P> & res)
-- 
2.43.0


From 94f2eb4baa24a2879f11e2cfc8e08d61672aac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 04/38] fix: MUX without extraction handles ring ciphertexts of
 more than two components

---
 include/gate.hpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/include/gate.hpp b/include/gate.hpp
index bd4bd2c..d57c050 100644
--- a/include/gate.hpp
+++ b/include/gate.hpp
@@ -278,19 +278,17 @@ void HomMUXwoIKSandSE(TRLWE<typename bkP::targetP> &res,
     TLWE<typename bkP::domainP> temp0;
     for (int i = 0; i <= bkP::domainP::n; i++) temp1[i] = cs[i] + c1[i];
     for (int i = 0; i <= bkP::domainP::n; i++) temp0[i] = -cs[i] + c0[i];
-    temp1[lvl0param::n] -= bkP::domainP::μ;
-    temp0[lvl0param::n] -= bkP::domainP::μ;
+    temp1[bkP::domainP::n] -= bkP::domainP::μ;
+    temp0[bkP::domainP::n] -= bkP::domainP::μ;
     TRLWE<typename bkP::targetP> and0;
     BlindRotate<bkP>(res, temp1, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
     BlindRotate<bkP>(and0, temp0, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
 
-    for (int i = 0; i < bkP::targetP::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += bkP::targetP::μ;
+    for (int k = 0; k <= bkP::targetP::k; k++)
+        for (int i = 0; i < bkP::targetP::n; i++) res[k][i] += and0[k][i];
+    res[bkP::targetP::k][0] += bkP::targetP::μ;
 }
 
 template <class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -312,11 +310,10 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
                      μpolygen<typename brP::targetP, brP::targetP::μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k <= brP::targetP::k; k++)
+        for (int i = 0; i < brP::targetP::n; i++)
+            res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += brP::targetP::μ;
 }
 
 template <class iksP, class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -341,11 +338,10 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
                      μpolygen<typename brP::targetP, brP::targetP::μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k <= brP::targetP::k; k++)
+        for (int i = 0; i < brP::targetP::n; i++)
+            res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += brP::targetP::μ;
 }
 
 void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
-- 
2.43.0


From 0a790e62dc157314f7917206fa4cc345fde03410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 05/38] fix: IOpacket saves its level 1 ports

---
 include/io-packet.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/io-packet.hpp b/include/io-packet.hpp
index c31cc5c..cc5f927 100644
--- a/include/io-packet.hpp
+++ b/include/io-packet.hpp
@@ -32,7 +32,8 @@ struct IOpacket {
     template <class Archive>
     void serialize(Archive &archive)
     {
-        archive(tlwelvl0ports, trlwelvl2ports, trgswlvl2ports, numCycles);
+        archive(tlwelvl0ports, tlwelvl1ports, trlwelvl2ports, trgswlvl2ports,
+                numCycles);
     }
 };
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From 0617524ad79415ee2f4e07e572efa9143e8caa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 06/38] fix: EvalKey saves iksklvl2h, subiksklvl21 and
 subprivksklvl21

---
 include/cloudkey.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 01bcce3..df825be 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -390,8 +390,8 @@ struct EvalKey {
         archive(params, bklvl01, bklvlh1, bklvl02, bklvlh2, bkfftlvl01,
                 bkfftlvlh1, bkfftlvl02, bkfftlvlh2, bknttlvl01, bknttlvlh1,
                 bknttlvl02, bknttlvlh2, iksklvl10, iksklvl1h, iksklvl20,
-                iksklvl21, iksklvl22, iksklvl31, privksklvl11, privksklvl21,
-                privksklvl22);
+                iksklvl2h, iksklvl21, iksklvl22, iksklvl31, subiksklvl21,
+                privksklvl11, privksklvl21, privksklvl22, subprivksklvl21);
     }
 
     // emplace keys
-- 
2.43.0


From 8fcd6d807c99031e37d4c064a1946518456149f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 07/38] fix: initialise, compare and save the lvl1 noise of
 lweParams

It was left uninitialised and then written to every saved secret and evaluation key.
---
 include/lweParams.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index 09f48e7..d767597 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -6,6 +6,16 @@
 #include "params.hpp"
 
 namespace TFHEpp {
+// standard deviation, or the parameter of the centered binomial distribution
+template <class P>
+double freshnoise()
+{
+    if constexpr (P::errordist == ErrorDistribution::ModularGaussian)
+        return P::α;
+    else
+        return P::η;
+}
+
 struct portablelvl0param {
     std::uint32_t n;           // dimension
     double α;                  // fresh noise
@@ -46,6 +56,7 @@ struct portablelvl1param {
           l(lvl1param::l),
           Bgbit(lvl1param::Bgbit),
           Bg(lvl1param::Bg),
+          α(freshnoise<lvl1param>()),
           approx_bit(std::numeric_limits<typename lvl1param::T>::digits)
     {
     }
@@ -53,13 +64,13 @@ struct portablelvl1param {
     template <class Archive>
     void serialize(Archive& archive)
     {
-        archive(nbit, n, l, Bgbit, Bg, approx_bit);
+        archive(nbit, n, l, Bgbit, Bg, α, approx_bit);
     }
 
     bool operator==(const portablelvl1param& in) const
     {
         return (nbit == in.nbit) && (n == in.n) && (l == in.l) &&
-               (Bgbit == in.Bgbit) && (Bg == in.Bg) &&
+               (Bgbit == in.Bgbit) && (Bg == in.Bg) && (α == in.α) &&
                (approx_bit == in.approx_bit);
     };
 };
-- 
2.43.0


From 934c2990321708867f1ea16d0e9956c5a0fb9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 08/38] fix: save the gadget base of lweParams, which its
 comparison includes

---
 include/lweParams.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index d767597..92b1068 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -213,8 +213,8 @@ struct lweParams {
     void serialize(Archive& archive)
     {
         archive(lvl0.n, lvl0.α, lvl0.approx_bit, lvl1.nbit, lvl1.n, lvl1.l,
-                lvl1.Bgbit, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n, lvl2.l,
-                lvl2.Bgbit, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
+                lvl1.Bgbit, lvl1.Bg, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n, lvl2.l,
+                lvl2.Bgbit, lvl2.Bg, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
                 lvl10.α, lvl20.t, lvl20.basebit, lvl20.α, lvl21.t,
                 lvl21.basebit, lvl22.t, lvl22.basebit /*lvl22.α*/);
     }
-- 
2.43.0


From 06da56b5e628888e8cea92616d9f7eaf9ac7d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:56 +0000
Subject: [PATCH 09/38] fix: allocate private key switching keys the way they
 are released

An over-aligned new of a type of ordinary alignment was released by the
ordinary delete of unique_ptr and shared_ptr.
---
 include/cloudkey.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index df825be..289c57b 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -596,20 +596,20 @@ struct EvalKey {
     {
         if constexpr (std::is_same_v<P, lvl11param>) {
             privksklvl11[key] =
-                std::unique_ptr<PrivateKeySwitchingKey<lvl11param>>(new (
-                    std::align_val_t(64)) PrivateKeySwitchingKey<lvl11param>());
+                std::make_unique_for_overwrite<
+                    PrivateKeySwitchingKey<lvl11param>>();
             privkskgen<lvl11param>(*privksklvl11[key], func, sk);
         }
         else if constexpr (std::is_same_v<P, lvl21param>) {
             privksklvl21[key] =
-                std::unique_ptr<PrivateKeySwitchingKey<lvl21param>>(new (
-                    std::align_val_t(64)) PrivateKeySwitchingKey<lvl21param>());
+                std::make_unique_for_overwrite<
+                    PrivateKeySwitchingKey<lvl21param>>();
             privkskgen<lvl21param>(*privksklvl21[key], func, sk);
         }
         else if constexpr (std::is_same_v<P, lvl22param>) {
             privksklvl22[key] =
-                std::unique_ptr<PrivateKeySwitchingKey<lvl22param>>(new (
-                    std::align_val_t(64)) PrivateKeySwitchingKey<lvl22param>());
+                std::make_unique_for_overwrite<
+                    PrivateKeySwitchingKey<lvl22param>>();
             privkskgen<lvl22param>(*privksklvl22[key], func, sk);
         }
         else
-- 
2.43.0


From a16d7bae3dd8b99833bf6ce7ae819bb0f0042224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:56 +0000
Subject: [PATCH 10/38] fix: 64-bit Gaussian noise does not convert a negative
 double to an unsigned type

---
 include/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index 3255a0b..a90b8a9 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -132,7 +132,8 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
         static const double _2p64 = std::pow(2., 64);
         std::normal_distribution<double> distribution(0., 1.0);
         const double val = stdev * distribution(generator) * _2p64;
-        const uint64_t ival = static_cast<typename P::T>(val);
+        // through a signed type: val is negative half of the time
+        const uint64_t ival = static_cast<int64_t>(val);
         return ival + center;
     }
     else
-- 
2.43.0


From ee22ec874142c207ffd341c4b1c087debf127c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 11/38] fix: align transform-domain polynomials as the vector
 code requires

The FFT kernels use aligned moves on them, but only some of the declarations
asked for the alignment; others crashed depending on the stack layout (always in
DEBUG builds).
---
 include/params.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/params.hpp b/include/params.hpp
index f72dd33..7f41946 100644
--- a/include/params.hpp
+++ b/include/params.hpp
@@ -79,7 +79,8 @@ using TLWE = aligned_array<typename P::T, P::k * P::n + 1>;
 template <class P>
 using Polynomial = std::array<typename P::T, P::n>;
 template <class P>
-using PolynomialInFD = std::array<double, P::n>;
+using PolynomialInFD =
+    aligned_array<double, P::n>;  // read and written by aligned vector moves
 template <class P>
 using PolynomialNTT = std::array<cuHEpp::INTorus, P::n>;
 template <class P>
-- 
2.43.0


From b8b47865201d7bbcb78e0d1d4cbdf38c4b9c81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 12/38] fix: inverse 64-bit FFT output of values below 2^-11 is
 zero

The conversion shifted by more than the word size, giving arbitrary values
(2 for an exact 0) unless the loop happened to be vectorised.
---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 31b0f34..cd8ffd5 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -333,7 +333,8 @@ void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double*
         // 1023 -> 52th pos -> 0th pos
         // 1075 -> 52th pos -> 52th pos
         int16_t trans = expo-1075;
-        uint64_t val2 = trans>0?(val<<trans):(val>>-trans);
+        // shifting by the word size or more is undefined, zero has trans=-1075
+        uint64_t val2 = trans>=64||trans<=-64?0:(trans>0?(val<<trans):(val>>-trans));
         res[i]=(vals[i]>>63)?-val2:val2;
     }
     #endif
-- 
2.43.0


From 934887fcf6c1ec562da84cb8fb335232d0936794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 13/38] fix: rescaled 64-bit FFT output does not convert
 negative doubles to an unsigned type

---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index cd8ffd5..1bc276f 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -366,7 +366,7 @@ void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const
 		);
     }
     fft(tables_direct,real_inout_direct); 
-    for (int i=0; i<N; i++) res[i] = uint64_t(std::round(real_inout_direct[i]/Δ));
+    for (int i=0; i<N; i++) res[i] = uint64_t(int64_t(std::round(real_inout_direct[i]/Δ)));
 }
 
 FFT_Processor_Spqlios::~FFT_Processor_Spqlios() {
-- 
2.43.0


From 4e74d98537782da05d1b6e60d5b990691e778b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 14/38] fix: release the FFT tables of a thread when it ends

---
 thirdparties/spqlios/fft_processor_spqlios.cpp |  5 +++--
 thirdparties/spqlios/fft_processor_spqlios.h   |  2 ++
 thirdparties/spqlios/spqlios-fft-impl.cpp      | 10 ++++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 1bc276f..4251d0d 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -370,9 +370,10 @@ void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const
 }
 
 FFT_Processor_Spqlios::~FFT_Processor_Spqlios() {
-    delete (tables_direct);
-    delete (tables_reverse);
+    delete_fft_table(tables_direct);
+    delete_ifft_table(tables_reverse);
     delete[] cosomegaxminus1;
+    delete[] reva;
 }
 
 thread_local FFT_Processor_Spqlios fftplvl1(TFHEpp::lvl1param::n);
diff --git a/thirdparties/spqlios/fft_processor_spqlios.h b/thirdparties/spqlios/fft_processor_spqlios.h
index ae21e42..2422dd2 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.h
+++ b/thirdparties/spqlios/fft_processor_spqlios.h
@@ -6,7 +6,9 @@
 extern "C"{
     void *new_fft_table(int32_t nn);
     double *fft_table_get_buffer(const void *tables);
+    void delete_fft_table(void *tables);
     void *new_ifft_table(int32_t nn);
+    void delete_ifft_table(void *tables);
     double *ifft_table_get_buffer(const void *tables);
     void fft_model(const void *tables);
     void ifft_model(void *tables);
diff --git a/thirdparties/spqlios/spqlios-fft-impl.cpp b/thirdparties/spqlios/spqlios-fft-impl.cpp
index c6148fe..4781aa6 100644
--- a/thirdparties/spqlios/spqlios-fft-impl.cpp
+++ b/thirdparties/spqlios/spqlios-fft-impl.cpp
@@ -191,6 +191,16 @@ extern "C" void *new_fft_table(int32_t nn) {
     }
     return reps;
 }
+extern "C" void delete_fft_table(void *tables) {
+    FFT_PRECOMP *reps = (FFT_PRECOMP *) tables;
+    free(reps->buf);
+    delete reps;
+}
+extern "C" void delete_ifft_table(void *tables) {
+    IFFT_PRECOMP *reps = (IFFT_PRECOMP *) tables;
+    free(reps->buf);
+    delete reps;
+}
 extern "C" double *fft_table_get_buffer(const void *tables) {
     FFT_PRECOMP *reps = (FFT_PRECOMP *) tables;
     return reps->aligned_data;
-- 
2.43.0


From 57a8827aae8b9502dde02ae99d21cdde9794093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 15/38] fix: INTorus += of an element to itself

---
 include/INTorus.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/INTorus.hpp b/include/INTorus.hpp
index bf8b4db..5e17e5b 100644
--- a/include/INTorus.hpp
+++ b/include/INTorus.hpp
@@ -33,11 +33,8 @@ public:
 
     INTorus &operator+=(const INTorus &b)
     {
-        this->value += b.value;
-        *this = INTorus(
-            this->value + static_cast<uint32_t>(
-                              -(this->value < b.value || this->value >= P)),
-            false);
+        // b may be *this
+        *this = *this + b;
         return *this;
     }
 
-- 
2.43.0


From 80d00f9a13978d01a6387abf555feee9bedc5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 16/38] fix: each FFT processor scales by its own size

---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 4251d0d..f87ae0d 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -134,7 +134,7 @@ void FFT_Processor_Spqlios::execute_reverse_torus64(double* res, const uint64_t*
 
 void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *a) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -180,7 +180,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *
 
 void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double *a, const uint32_t q) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -226,7 +226,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double
 
 void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const double *a, const double Δ) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -270,7 +270,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double* a) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
@@ -341,7 +341,7 @@ void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double*
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const double* a, const double Δ) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
-- 
2.43.0


From b81b87e395c4d91968f9447b028fcf4c937e1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:28 +0000
Subject: [PATCH 17/38] fix: subset private key switching extracts digits of
 the target-size words it is given

---
 include/keyswitch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 6d7d239..31361d6 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -329,7 +329,7 @@ void SubsetPrivKeySwitch(TRLWE<typename P::targetP> &res,
 
         for (int j = 0; j < P::t; j++) {
             const typename P::domainP::T aij =
-                (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
+                (aibar >> (std::numeric_limits<typename P::targetP::T>::digits -
                            (j + 1) * P::basebit)) &
                 mask;
 
-- 
2.43.0


From 27011d5845034fc175d2f2d7ac6962d02b43fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:28 +0000
Subject: [PATCH 18/38] fix: annihilation and packing do not index a component
 past its end

---
 include/keyswitch.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 31361d6..d75b9f7 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -246,9 +246,11 @@ void AnnihilateKeySwitching(TRLWE<P> &res, const TRLWE<P> &trlwe,
     res = trlwe;
     for (int i = 0; i < P::nbit; i++) {
         TRLWE<P> evaledauto;
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] += evaledauto[0][j];
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] += evaledauto[k][j];
     }
 }
 
@@ -380,9 +382,11 @@ void TLWE2TRLWEChengsPacking(TRLWE<P> &res, std::vector<TLWE<P>> &tlwe, const An
     PackLWEs<P>(res, tlwe, ahk, l, 0, 1);
     for (int i = 0; i < P::nbit - l; i++) {
         TRLWE<P> evaledauto;
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] += evaledauto[0][j];
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] += evaledauto[k][j];
     }
 }
 
-- 
2.43.0


From 349c5c8fcbc9087726897448ccbcfa5619e2ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 19/38] fix: blind rotation of an encrypted test vector uses
 the bootstrapping key element step

BlindRotate with a TRLWE test vector passed P::targetP where the CMUX step
takes the bootstrapping parameter, so it could not be instantiated.
---
 include/gatebootstrapping.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 20ae8a3..c39d8d6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -119,8 +119,7 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                 << bitwidth;
         if (ā == 0) continue;
         // Do not use CMUXFFT to avoid unnecessary copy.
-        CMUXFFTwithPolynomialMulByXaiMinusOne<typename P::targetP>(res,
-                                                                   bkfft[i], ā);
+        CMUXFFTwithPolynomialMulByXaiMinusOne<P>(res, bkfft[i], ā);
     }
 #endif
 }
-- 
2.43.0


From b20a1b3b9230aab3b089fb179532bc09c21ab7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 20/38] fix: GateBootstrappingNTT names iksP::targetP

The misspelt type removed the overload that bootstraps before switching.
---
 include/gatebootstrapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index c39d8d6..1c717e6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -260,7 +260,7 @@ void GateBootstrapping(TLWE<typename iksP::domainP> &res,
 }
 
 template <class bkP, typename bkP::targetP::T μ, class iksP>
-void GateBootstrappingNTT(TLWE<typename iksP::tagetP> &res,
+void GateBootstrappingNTT(TLWE<typename iksP::targetP> &res,
                           const TLWE<typename bkP::domainP> &tlwe,
                           const EvalKey &ek)
 {
-- 
2.43.0


From 3539980b87f503ad38efda5b68990faa3b804c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 21/38] fix: annihilation leaves no half turns in the other
 coefficients

---
 include/keyswitch.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index d75b9f7..ccc6ecb 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -244,7 +244,9 @@ void AnnihilateKeySwitching(TRLWE<P> &res, const TRLWE<P> &trlwe,
                             const AnnihilateKey<P> &ahk)
 {
     res = trlwe;
-    for (int i = 0; i < P::nbit; i++) {
+    // Halving leaves a half turn open in coefficients the automorphism moves.
+    // From 3 up to N + 1, each step settles what the previous ones left open.
+    for (int i = P::nbit - 1; i >= 0; i--) {
         TRLWE<P> evaledauto;
         for (int k = 0; k < P::k + 1; k++)
             for (int j = 0; j < P::n; j++) res[k][j] /= 2;
@@ -380,7 +382,8 @@ void TLWE2TRLWEChengsPacking(TRLWE<P> &res, std::vector<TLWE<P>> &tlwe, const An
         tlwe.resize(1<<l);
     }
     PackLWEs<P>(res, tlwe, ahk, l, 0, 1);
-    for (int i = 0; i < P::nbit - l; i++) {
+    // in the order of AnnihilateKeySwitching, after the steps taken above
+    for (int i = static_cast<int>(P::nbit - l) - 1; i >= 0; i--) {
         TRLWE<P> evaledauto;
         for (int k = 0; k < P::k + 1; k++)
             for (int j = 0; j < P::n; j++) res[k][j] /= 2;
-- 
2.43.0


From 6aa6fe72e01391c8980b1dd2e8ced994c0b53eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 22/38] fix: CMUXFFT gives the same result when it overwrites
 c0

---
 include/detwfa.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/detwfa.hpp b/include/detwfa.hpp
index 9eef779..ed05a56 100644
--- a/include/detwfa.hpp
+++ b/include/detwfa.hpp
@@ -7,11 +7,13 @@ template <class P>
 void CMUXFFT(TRLWE<P> &res, const TRGSWFFT<P> &cs, const TRLWE<P> &c1,
              const TRLWE<P> &c0)
 {
+    // res may be c1 or c0
+    alignas(64) TRLWE<P> temp;
     for (int k = 0; k < P::k + 1; k++)
-        for (int i = 0; i < P::n; i++) res[k][i] = c1[k][i] - c0[k][i];
-    trgswfftExternalProduct<P>(res, res, cs);
+        for (int i = 0; i < P::n; i++) temp[k][i] = c1[k][i] - c0[k][i];
+    trgswfftExternalProduct<P>(temp, temp, cs);
     for (int k = 0; k < P::k + 1; k++)
-        for (int i = 0; i < P::n; i++) res[k][i] += c0[k][i];
+        for (int i = 0; i < P::n; i++) res[k][i] = temp[k][i] + c0[k][i];
 }
 
 template <class P>
-- 
2.43.0


From e9fa74b6d493d8ae92312f19785ae3a46ab0e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 23/38] fix: RAMwriteBar can update the cell in place

---
 include/cmuxmem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cmuxmem.hpp b/include/cmuxmem.hpp
index db86fed..9d7a752 100644
--- a/include/cmuxmem.hpp
+++ b/include/cmuxmem.hpp
@@ -36,9 +36,10 @@ void RAMwriteBar(
     const std::array<std::array<TRGSWFFT<P>, address_bit>, 2> &bootedTRGSW)
 {
     const std::bitset<address_bit> addressbitset(index);
+    const TRLWE<P> cell = encmem;  // res may be the cell itself
     res = writed;
     for (int i = 0; i < address_bit; i++)
-        CMUXFFT<P>(res, bootedTRGSW[addressbitset[i]][i], res, encmem);
+        CMUXFFT<P>(res, bootedTRGSW[addressbitset[i]][i], res, cell);
 }
 
 // MUX tree for vertical packing
-- 
2.43.0


From fbbe764eca6b2ef227a75a631aadffc46c76349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 24/38] fix: EvalAuto can overwrite its input

---
 include/keyswitch.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index ccc6ecb..589f290 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -225,6 +225,11 @@ template <class P>
 void EvalAuto(TRLWE<P> &res, const TRLWE<P> &trlwe, const int d,
               const EvalAutoKey<P> &autokey)
 {
+    if (&res == &trlwe) {
+        const TRLWE<P> copy = trlwe;
+        EvalAuto<P>(res, copy, d, autokey);
+        return;
+    }
     res = {};
     Automorphism<P>(res[P::k], trlwe[P::k], d);
 
-- 
2.43.0


From 2a7ebb76c94bd40c1f81c9989da88b8d603440ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 25/38] fix: blind rotation can overwrite its encrypted test
 vector

---
 include/gatebootstrapping.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 1c717e6..f951a39 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -82,8 +82,10 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                          (std::numeric_limits<typename P::domainP::T>::digits -
                           1 - P::targetP::nbit + bitwidth))
                         << bitwidth);
-    for (int k = 0; k < P::targetP::k + 1; k++)
-        PolynomialMulByXai<typename P::targetP>(res[k], testvector[k], b̄);
+    for (int k = 0; k < P::targetP::k + 1; k++) {
+        const Polynomial<typename P::targetP> poly = testvector[k];
+        PolynomialMulByXai<typename P::targetP>(res[k], poly, b̄);
+    }
 #ifdef USE_KEY_BUNDLE
     alignas(64) std::array<TRGSWFFT<typename P::targetP>,
                            P::domainP::k * P::domainP::n / P::Addends>
-- 
2.43.0


From 6cee1ac64cb597b1b108f17fd8f543f330874f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 26/38] fix: key switching within one level can overwrite its
 input

---
 include/keyswitch.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 589f290..1b7d246 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -25,6 +25,12 @@ void IdentityKeySwitch(TLWE<typename P::targetP> &res,
                        const TLWE<typename P::domainP> &tlwe,
                        const KeySwitchingKey<P> &ksk)
 {
+    if constexpr (std::is_same_v<typename P::domainP, typename P::targetP>)
+        if (&res == &tlwe) {
+            const TLWE<typename P::domainP> copy = tlwe;
+            IdentityKeySwitch<P>(res, copy, ksk);
+            return;
+        }
     res = {};
     constexpr uint domain_digit =
         std::numeric_limits<typename P::domainP::T>::digits;
@@ -78,6 +84,12 @@ void CatIdentityKeySwitch(
     const std::array<TLWE<typename P::domainP>, numcat> &tlwe,
     const KeySwitchingKey<P> &ksk)
 {
+    if constexpr (std::is_same_v<typename P::domainP, typename P::targetP>)
+        if (&res == &tlwe) {
+            const std::array<TLWE<typename P::domainP>, numcat> copy = tlwe;
+            CatIdentityKeySwitch<P, numcat>(res, copy, ksk);
+            return;
+        }
     res = {};
     constexpr uint domain_digit =
         std::numeric_limits<typename P::domainP::T>::digits;
-- 
2.43.0


From 10d6404f596fb58e9aeaeccafe721bc9b4a3c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 27/38] fix: the CGGI16 and CGGI19 parameter sets compile again
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The half-size switching keys cannot be formed for the placeholder digit
length 0, and an unsigned μ cannot be the offset of a gate.
---
 include/params/CGGI16.hpp | 18 +++++++++---------
 include/params/CGGI19.hpp | 22 +++++++++++-----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/params/CGGI16.hpp b/include/params/CGGI16.hpp
index c724f60..61326c6 100644
--- a/include/params/CGGI16.hpp
+++ b/include/params/CGGI16.hpp
@@ -13,7 +13,7 @@ struct lvl0param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = 2.44e-5;
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1U << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -51,7 +51,7 @@ struct lvl1param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = 3.73e-9;
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1U << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -71,7 +71,7 @@ struct lvl2param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -44);
     using T = uint64_t;
-    static constexpr T μ = 1ULL << 61;
+    static constexpr std::make_signed_t<T> μ = 1ULL << 61;
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ = μ;
 };
@@ -120,9 +120,9 @@ struct lvl1hparam {
 
 // Dummy
 struct lvl11param {
-    static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
+    static constexpr std::uint32_t t = 6;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        4;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl1param::α;  // key noise
@@ -142,9 +142,9 @@ struct lvl21param {
 
 // Dummy
 struct lvl20param {
-    static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
+    static constexpr std::uint32_t t = 7;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        2;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl0param::α;  // key noise
@@ -166,8 +166,8 @@ struct lvl2hparam {
 
 // Dummy
 struct lvl22param {
-    static constexpr std::uint32_t t = 0;
-    static constexpr std::uint32_t basebit = 0;
+    static constexpr std::uint32_t t = 38;
+    static constexpr std::uint32_t basebit = 1;
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl2param::α;
diff --git a/include/params/CGGI19.hpp b/include/params/CGGI19.hpp
index 4be0990..ecb7d6b 100644
--- a/include/params/CGGI19.hpp
+++ b/include/params/CGGI19.hpp
@@ -15,7 +15,7 @@ struct lvl0param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -15);
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1U << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -53,7 +53,7 @@ struct lvl1param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -25);
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1U << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -73,7 +73,7 @@ struct lvl2param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -44);
     using T = uint64_t;
-    static constexpr T μ = 1ULL << 61;
+    static constexpr std::make_signed_t<T> μ = 1ULL << 61;
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ = μ;
 };
@@ -101,14 +101,14 @@ struct lvl3param {
 
 // Dummy
 struct lvl11param {
-    static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
+    static constexpr std::uint32_t t = 6;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        4;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
-    static const inline double α = lvl0param::α;  // key noise
+    static const inline double α = lvl1param::α;  // key noise
     using domainP = lvl1param;
-    using targetP = lvl0param;
+    using targetP = lvl1param;
 };
 
 struct lvl10param {
@@ -144,9 +144,9 @@ struct lvl21param {
 
 // Dummy
 struct lvl20param {
-    static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
+    static constexpr std::uint32_t t = 7;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        2;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl0param::α;  // key noise
@@ -168,8 +168,8 @@ struct lvl2hparam {
 
 // Dummy
 struct lvl22param {
-    static constexpr std::uint32_t t = 0;
-    static constexpr std::uint32_t basebit = 0;
+    static constexpr std::uint32_t t = 38;
+    static constexpr std::uint32_t basebit = 1;
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl2param::α;
-- 
2.43.0


From 7ee289a9b96b89b97a375d2d7250067ac9b87efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 28/38] =?UTF-8?q?fix:=20lvlhalf=20and=20lvl2=20=CE=BC=20ar?=
 =?UTF-8?q?e=20signed=20in=20every=20parameter=20set?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

As in the other sets and levels: gates on these levels negate μ in a
template argument.
---
 include/params/128bit.hpp   | 3 ++-
 include/params/CGGI16.hpp   | 3 ++-
 include/params/CGGI19.hpp   | 3 ++-
 include/params/compress.hpp | 3 ++-
 include/params/concrete.hpp | 5 +++--
 include/params/ternary.hpp  | 3 ++-
 6 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/params/128bit.hpp b/include/params/128bit.hpp
index d03c43b..a38c854 100644
--- a/include/params/128bit.hpp
+++ b/include/params/128bit.hpp
@@ -32,7 +32,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
diff --git a/include/params/CGGI16.hpp b/include/params/CGGI16.hpp
index 61326c6..569e67d 100644
--- a/include/params/CGGI16.hpp
+++ b/include/params/CGGI16.hpp
@@ -31,7 +31,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
diff --git a/include/params/CGGI19.hpp b/include/params/CGGI19.hpp
index ecb7d6b..e974e14 100644
--- a/include/params/CGGI19.hpp
+++ b/include/params/CGGI19.hpp
@@ -33,7 +33,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
diff --git a/include/params/compress.hpp b/include/params/compress.hpp
index 666530e..83d18ab 100644
--- a/include/params/compress.hpp
+++ b/include/params/compress.hpp
@@ -36,7 +36,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
diff --git a/include/params/concrete.hpp b/include/params/concrete.hpp
index 4524feb..feeab87 100644
--- a/include/params/concrete.hpp
+++ b/include/params/concrete.hpp
@@ -38,7 +38,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -82,7 +83,7 @@ struct lvl2param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -38);  // fresh noise
     using T = uint64_t;                                 // Torus representation
-    static constexpr T μ = 1ULL << 61;
+    static constexpr std::make_signed_t<T> μ = 1ULL << 61;
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ = μ;
 };
diff --git a/include/params/ternary.hpp b/include/params/ternary.hpp
index b441e11..04e693d 100644
--- a/include/params/ternary.hpp
+++ b/include/params/ternary.hpp
@@ -33,7 +33,8 @@ struct lvlhalfparam {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -17);  // fresh noise
     using T = uint32_t;                                 // Torus representation
-    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
+    static constexpr std::make_signed_t<T> μ =
+        1U << (std::numeric_limits<T>::digits - 3);
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
-- 
2.43.0


From 85f162d3c5cf38b334a3f7177e838e51e72ce0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 29/38] fix: ternary CMUX handles lvl2 and rotations by zero

---
 include/mulfft.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 50c48ac..2cfd49d 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -416,10 +416,15 @@ inline void PolynomialMulByXaiMinusOneInFD(PolynomialInFD<P> &res,
                                            const int a)
 {
     const int mod = a % (2 * P::n);
-    const int index = mod > 0 ? mod : mod + (2 * P::n);
+    const int index = mod >= 0 ? mod : mod + (2 * P::n);
     if constexpr (std::is_same_v<P, lvl1param>) {
         MulInFD<P::n>(res, poly, (*xaittlvl1)[index]);
     }
+    else if constexpr (std::is_same_v<P, lvl2param>) {
+        MulInFD<P::n>(res, poly, (*xaittlvl2)[index]);
+    }
+    else
+        static_assert(false_v<P>, "Undefined PolynomialMulByXaiMinusOneInFD!");
 }
 #endif
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From b8b66e16b3380acbd7777eeaacd3bebf52d2d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 30/38] fix: key bundles cover every gadget row when k > 1

---
 include/keybundle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/keybundle.hpp b/include/keybundle.hpp
index 2ace8b4..de81190 100644
--- a/include/keybundle.hpp
+++ b/include/keybundle.hpp
@@ -69,7 +69,7 @@ void KeyBundleFFT(TRGSWFFT<typename P::targetP> &kbfft,
     else {
         kbfft = onetrgswlvl2;
     }
-    for (int i = 0; i < 2 * P::targetP::l; i++) {
+    for (int i = 0; i < (P::targetP::k + 1) * P::targetP::l; i++) {
         for (int j = 0; j < P::targetP::k + 1; j++) {
             constexpr uint32_t indexmask = 2 * P::targetP::n - 1;
             if constexpr (std::is_same_v<typename P::targetP, lvl1param>) {
-- 
2.43.0


From e13a265beb8a95bc18bcb6c589da11233525e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 31/38] fix: converting a bootstrapping key to FFT form
 converts every element

---
 include/cloudkey.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 289c57b..473256e 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -479,30 +479,34 @@ struct EvalKey {
         if constexpr (std::is_same_v<P, lvl01param>) {
             bkfftlvl01 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl01param>>();
-            for (int i = 0; i < lvl01param::domainP::n; i++)
-                (*bkfftlvl01)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][0]);
+            for (int i = 0; i < bkfftlvl01->size(); i++)
+                for (int j = 0; j < (*bklvl01)[i].size(); j++)
+                    (*bkfftlvl01)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh1param>) {
             bkfftlvlh1 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh1param>>();
-            for (int i = 0; i < lvlh1param::domainP::n; i++)
-                (*bkfftlvlh1)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][0]);
+            for (int i = 0; i < bkfftlvlh1->size(); i++)
+                for (int j = 0; j < (*bklvlh1)[i].size(); j++)
+                    (*bkfftlvlh1)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvl02param>) {
             bkfftlvl02 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl02param>>();
-            for (int i = 0; i < lvl02param::domainP::n; i++)
-                (*bkfftlvl02)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][0]);
+            for (int i = 0; i < bkfftlvl02->size(); i++)
+                for (int j = 0; j < (*bklvl02)[i].size(); j++)
+                    (*bkfftlvl02)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh2param>) {
             bkfftlvlh2 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh2param>>();
-            for (int i = 0; i < lvlh2param::domainP::n; i++)
-                (*bkfftlvlh2)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][0]);
+            for (int i = 0; i < bkfftlvlh2->size(); i++)
+                for (int j = 0; j < (*bklvlh2)[i].size(); j++)
+                    (*bkfftlvlh2)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][j]);
         }
         else
             static_assert(false_v<typename P::T>, "Not predefined parameter!");
-- 
2.43.0


From a487ed3f4a9e2cba7ee04916714fce3be9388137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 32/38] fix: TLWE to TRLWE key switching covers the whole key
 when k > 1

---
 include/cloudkey.hpp  | 2 +-
 include/keyswitch.hpp | 8 ++++----
 include/params.hpp    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 473256e..17aff3a 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -148,7 +148,7 @@ void tlwe2trlweikskgen(TLWE2TRLWEIKSKey<P>& iksk,
                        const Key<typename P::domainP>& domainkey,
                        const Key<typename P::targetP>& targetkey)
 {
-    for (int i = 0; i < P::domainP::n; i++)
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++)
         for (int j = 0; j < P::t; j++)
             for (uint32_t k = 0; k < (1 << P::basebit) - 1; k++) {
                 Polynomial<typename P::targetP> p = {};
diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 1b7d246..30be9b5 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -210,15 +210,15 @@ void TLWE2TRLWEIKS(TRLWE<typename P::targetP> &res,
     constexpr uint32_t target_digit =
         std::numeric_limits<typename P::targetP::T>::digits;
     if constexpr (domain_digit == target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n];
+        res[P::targetP::k][0] = tlwe[P::domainP::k * P::domainP::n];
     else if constexpr (domain_digit > target_digit)
-        res[P::targetP::k][0] = (tlwe[P::domainP::n] +
+        res[P::targetP::k][0] = (tlwe[P::domainP::k * P::domainP::n] +
                                  (1ULL << (domain_digit - target_digit - 1))) >>
                                 (domain_digit - target_digit);
     else if constexpr (domain_digit < target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n]
+        res[P::targetP::k][0] = tlwe[P::domainP::k * P::domainP::n]
                                 << (target_digit - domain_digit);
-    for (int i = 0; i < P::domainP::n; i++) {
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++) {
         const typename P::domainP::T aibar = tlwe[i] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
diff --git a/include/params.hpp b/include/params.hpp
index 7f41946..7651496 100644
--- a/include/params.hpp
+++ b/include/params.hpp
@@ -160,7 +160,7 @@ template <class P>
 using TLWE2TRLWEIKSKey = std::array<
     std::array<std::array<TRLWE<typename P::targetP>, (1 << P::basebit) - 1>,
                P::t>,
-    P::domainP::n>;
+    P::domainP::k * P::domainP::n>;
 template <class P>
 using EvalAutoKey = std::array<HalfTRGSWFFT<P>, P::k>;
 template <class P>
-- 
2.43.0


From f22693801cb6e24dd7f518bfe3e7c3b27dc6d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 33/38] fix: subset key switching skips the whole shared key
 when k > 1

---
 include/cloudkey.hpp  | 3 ++-
 include/keyswitch.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 17aff3a..30e165a 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -257,7 +257,8 @@ void subikskgen(SubsetKeySwitchingKey<P>& ksk,
                 const Key<typename P::domainP>& domainkey)
 {
     Key<typename P::targetP> subkey;
-    for (int i = 0; i < P::targetP::n; i++) subkey[i] = domainkey[i];
+    for (int i = 0; i < P::targetP::k * P::targetP::n; i++)
+        subkey[i] = domainkey[i];
     for (int i = 0;
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n; i++)
         for (int j = 0; j < P::t; j++)
diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 30be9b5..3c654fd 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -182,7 +182,7 @@ void SubsetIdentityKeySwitch(TLWE<typename P::targetP> &res,
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n;
          i++) {
         const typename P::domainP::T aibar =
-            tlwe[i + P::targetP::n] + prec_offset;
+            tlwe[i + P::targetP::k * P::targetP::n] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
                 (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
-- 
2.43.0


From b2ee512b37ada76682589b861e30c3d79f88c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 34/38] fix: the inverse of a circuit-bootstrapped TRGSW covers
 every gadget row when k > 1

---
 include/circuitbootstrapping.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/circuitbootstrapping.hpp b/include/circuitbootstrapping.hpp
index 8406a78..f8c41ae 100644
--- a/include/circuitbootstrapping.hpp
+++ b/include/circuitbootstrapping.hpp
@@ -155,8 +155,8 @@ void CircuitBootstrappingFFTwithInv(
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
     for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
+        for (int k = 0; k < privksP::targetP::k + 1; k++)
+            trgsw[i + k * privksP::targetP::l][k][0] += h[i];
     }
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
@@ -181,8 +181,8 @@ void CircuitBootstrappingFFTwithInv(
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
     for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
+        for (int k = 0; k < privksP::targetP::k + 1; k++)
+            trgsw[i + k * privksP::targetP::l][k][0] += h[i];
     }
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
-- 
2.43.0


From bff0265ab8422fd1099749f1e57c0cebbdb1982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 35/38] fix: LROMUX handles every ring component when k > 1

---
 include/cmuxmem.hpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/cmuxmem.hpp b/include/cmuxmem.hpp
index 9d7a752..d495f95 100644
--- a/include/cmuxmem.hpp
+++ b/include/cmuxmem.hpp
@@ -76,25 +76,23 @@ void LROMUX(vector<TLWE<P>> &res,
             const TRLWE<P> &data)
 {
     TRLWE<P> temp, acc;
-    PolynomialMulByXaiMinusOne<P>(temp[0], data[0], 2 * P::n - (P::n >> 1));
-    PolynomialMulByXaiMinusOne<P>(temp[1], data[1], 2 * P::n - (P::n >> 1));
+    for (int k = 0; k < P::k + 1; k++)
+        PolynomialMulByXaiMinusOne<P>(temp[k], data[k],
+                                      2 * P::n - (P::n >> 1));
     trgswfftExternalProduct<P>(temp, temp, address[width_bit - 1]);
-    for (int i = 0; i < P::n; i++) {
-        // initialize acc
-        acc[0][i] = temp[0][i] + data[0][i];
-        acc[1][i] = temp[1][i] + data[1][i];
-    }
+    for (int k = 0; k < P::k + 1; k++)
+        for (int i = 0; i < P::n; i++) {
+            // initialize acc
+            acc[k][i] = temp[k][i] + data[k][i];
+        }
 
     for (uint32_t bit = 2; bit <= width_bit; bit++) {
-        PolynomialMulByXaiMinusOne<P>(temp[0], acc[0],
-                                      2 * P::n - (P::n >> bit));
-        PolynomialMulByXaiMinusOne<P>(temp[1], acc[1],
-                                      2 * P::n - (P::n >> bit));
+        for (int k = 0; k < P::k + 1; k++)
+            PolynomialMulByXaiMinusOne<P>(temp[k], acc[k],
+                                          2 * P::n - (P::n >> bit));
         trgswfftExternalProduct<P>(temp, temp, address[width_bit - bit]);
-        for (int i = 0; i < P::n; i++) {
-            acc[0][i] += temp[0][i];
-            acc[1][i] += temp[1][i];
-        }
+        for (int k = 0; k < P::k + 1; k++)
+            for (int i = 0; i < P::n; i++) acc[k][i] += temp[k][i];
     }
 
     constexpr uint32_t word = 1 << (P::nbit - width_bit);
-- 
2.43.0


From 18f598de99906352251e827c1b141733fa30092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 36/38] fix: CenteredBinomial keeps its bit buffer per thread
 and uses every drawn bit once

---
 include/utils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index a90b8a9..808ff84 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -143,14 +143,15 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
 template <class P>
 inline typename P::T CenteredBinomial(uint η)
 {
-    static uint64_t buf;
-    static uint_fast8_t count = 64;
+    static thread_local uint64_t buf;
+    static thread_local uint_fast8_t count = 64;
     typename P::T acc = 0;
     std::uniform_int_distribution<uint64_t> dist(
         0, std::numeric_limits<uint64_t>::max());
     for (int i = 0; i < 2 * η; i++) {
         if (count >= 64) {
             buf = dist(generator);
+            count = 0;
         }
         acc += buf & 1;
         buf >>= 1;
-- 
2.43.0


From b5b19aa9fe1d5f75aed19a3ccfb1b52298592713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 37/38] fix: HomMUXwoSE returns the output amplitude it is
 asked for

---
 include/gate.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/gate.hpp b/include/gate.hpp
index d57c050..921be12 100644
--- a/include/gate.hpp
+++ b/include/gate.hpp
@@ -306,14 +306,14 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     and0[brP::domainP::k * brP::domainP::n] -= brP::domainP::μ;
     TRLWE<typename brP::targetP> and0trlwe;
     BlindRotate<brP>(res, and1, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
 
     for (int k = 0; k <= brP::targetP::k; k++)
         for (int i = 0; i < brP::targetP::n; i++)
             res[k][i] += and0trlwe[k][i];
-    res[brP::targetP::k][0] += brP::targetP::μ;
+    res[brP::targetP::k][0] += μ;
 }
 
 template <class iksP, class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -334,14 +334,14 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     IdentityKeySwitch<iksP>(and0, temp0, ek.getiksk<iksP>());
     TRLWE<typename brP::targetP> and0trlwe;
     BlindRotate<brP>(res, and1, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
 
     for (int k = 0; k <= brP::targetP::k; k++)
         for (int i = 0; i < brP::targetP::n; i++)
             res[k][i] += and0trlwe[k][i];
-    res[brP::targetP::k][0] += brP::targetP::μ;
+    res[brP::targetP::k][0] += μ;
 }
 
 void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
-- 
2.43.0


From dbe5f7f2b5cc7f2334493103725b34ed1514ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 38/38] fix: Cheng's packing leaves the caller's vector of
 inputs as it was

---
 include/keyswitch.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 3c654fd..0742be0 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -396,9 +396,12 @@ void TLWE2TRLWEChengsPacking(TRLWE<P> &res, std::vector<TLWE<P>> &tlwe, const An
     uint l = std::bit_width(tlwe.size()) - 1;
     if(!std::has_single_bit(tlwe.size())){
         l++;
-        tlwe.resize(1<<l);
+        std::vector<TLWE<P>> padded = tlwe;
+        padded.resize(1<<l);
+        PackLWEs<P>(res, padded, ahk, l, 0, 1);
     }
-    PackLWEs<P>(res, tlwe, ahk, l, 0, 1);
+    else
+        PackLWEs<P>(res, tlwe, ahk, l, 0, 1);
     // in the order of AnnihilateKeySwitching, after the steps taken above
     for (int i = static_cast<int>(P::nbit - l) - 1; i >= 0; i--) {
         TRLWE<P> evaledauto;
-- 
2.43.0

