From fc4ef2cab2d76fa5009c2bff87fdd2a973c0981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 01/26] fix: serialize every key held by EvalKey

iksklvl2h, subiksklvl21 and subprivksklvl21 were lost by a save/load round trip.
---
 include/cloudkey.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 01bcce3..df825be 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -390,8 +390,8 @@ struct EvalKey {
         archive(params, bklvl01, bklvlh1, bklvl02, bklvlh2, bkfftlvl01,
                 bkfftlvlh1, bkfftlvl02, bkfftlvlh2, bknttlvl01, bknttlvlh1,
                 bknttlvl02, bknttlvlh2, iksklvl10, iksklvl1h, iksklvl20,
-                iksklvl21, iksklvl22, iksklvl31, privksklvl11, privksklvl21,
-                privksklvl22);
+                iksklvl2h, iksklvl21, iksklvl22, iksklvl31, subiksklvl21,
+                privksklvl11, privksklvl21, privksklvl22, subprivksklvl21);
     }
 
     // emplace keys
-- 
2.43.0


From 2982f5d8cf65a2fa9b8b4bfeb742897dbe7891ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 02/26] fix: serialize the level 1 ports of an IOpacket

---
 include/io-packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/io-packet.hpp b/include/io-packet.hpp
index c31cc5c..8ccf0b7 100644
--- a/include/io-packet.hpp
+++ b/include/io-packet.hpp
@@ -32,7 +32,7 @@ struct IOpacket {
     template <class Archive>
     void serialize(Archive &archive)
     {
-        archive(tlwelvl0ports, trlwelvl2ports, trgswlvl2ports, numCycles);
+        archive(tlwelvl0ports, tlwelvl1ports, trlwelvl2ports, trgswlvl2ports, numCycles);
     }
 };
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From 14897c4fc106f199c34cfd3f2bde117bd35429dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 03/26] fix: sample the level 3 secret key

lweKey left lvl3 uninitialised.
---
 src/key.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cpp b/src/key.cpp
index decd903..7c24e17 100644
--- a/src/key.cpp
+++ b/src/key.cpp
@@ -12,10 +12,13 @@ lweKey::lweKey()
                                                    lvl1param::key_value_max);
     std::uniform_int_distribution<int32_t> lvl2gen(lvl2param::key_value_min,
                                                    lvl2param::key_value_max);
+    std::uniform_int_distribution<int32_t> lvl3gen(lvl3param::key_value_min,
+                                                   lvl3param::key_value_max);
     for (typename lvl0param::T &i : lvl0) i = lvl0gen(generator);
     for (typename lvlhalfparam::T &i : lvlhalf) i = lvlhalfgen(generator);
     for (typename lvl1param::T &i : lvl1) i = lvl1gen(generator);
     for (typename lvl2param::T &i : lvl2) i = lvl2gen(generator);
+    for (typename lvl3param::T &i : lvl3) i = lvl3gen(generator);
 }
 
 template <class P>
-- 
2.43.0


From 5c22dfc85fbd6fcc4de13660361fc62b3e982a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 04/26] fix: ExtractSwitchAndHomMUX adds mu, not the ring
 degree

The sum of the two bootstrapped ANDs has to be shifted by mu (it was shifted by
lvl1param::n), in the body component of whatever module rank lvl1 has.
---
 src/gate.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gate.cpp b/src/gate.cpp
index 6e7976d..efb2b0b 100644
--- a/src/gate.cpp
+++ b/src/gate.cpp
@@ -25,11 +25,9 @@ void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
     BlindRotate<lvl01param>(and0, c0, *ek.bkfftlvl01,
                             μpolygen<lvl1param, lvl1param::μ>());
 
-    for (int i = 0; i < lvl1param::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += lvl1param::n;
+    for (int k = 0; k < lvl1param::k + 1; k++)
+        for (int i = 0; i < lvl1param::n; i++) res[k][i] += and0[k][i];
+    res[lvl1param::k][0] += lvl1param::μ;
 }
 
 #define INST(P) template void HomCONSTANTONE<P>(TLWE<P> & res)
-- 
2.43.0


From 08643098f634f765db0464fd9f137a60c98379f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 05/26] fix: GateBootstrappingNTT names iksP::targetP

The misspelled member made the overload impossible to call.
---
 include/gatebootstrapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 20ae8a3..6fb3779 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -261,7 +261,7 @@ void GateBootstrapping(TLWE<typename iksP::domainP> &res,
 }
 
 template <class bkP, typename bkP::targetP::T μ, class iksP>
-void GateBootstrappingNTT(TLWE<typename iksP::tagetP> &res,
+void GateBootstrappingNTT(TLWE<typename iksP::targetP> &res,
                           const TLWE<typename bkP::domainP> &tlwe,
                           const EvalKey &ek)
 {
-- 
2.43.0


From 3598cac08afd50d0b244bd635a84d02f7e687547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 06/26] fix: do not index past the first component of a TRLWE

res[0][j] with j up to (k+1)*n leaves the inner array, which is undefined
behaviour (and aborts with a hardened standard library).
---
 include/keyswitch.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 6d7d239..301bbce 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -246,9 +246,11 @@ void AnnihilateKeySwitching(TRLWE<P> &res, const TRLWE<P> &trlwe,
     res = trlwe;
     for (int i = 0; i < P::nbit; i++) {
         TRLWE<P> evaledauto;
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] += evaledauto[0][j];
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] += evaledauto[k][j];
     }
 }
 
@@ -380,9 +382,11 @@ void TLWE2TRLWEChengsPacking(TRLWE<P> &res, std::vector<TLWE<P>> &tlwe, const An
     PackLWEs<P>(res, tlwe, ahk, l, 0, 1);
     for (int i = 0; i < P::nbit - l; i++) {
         TRLWE<P> evaledauto;
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] += evaledauto[0][j];
+        for (int k = 0; k < P::k + 1; k++)
+            for (int j = 0; j < P::n; j++) res[k][j] += evaledauto[k][j];
     }
 }
 
-- 
2.43.0


From 23f6c3fa65de0493b3789377ffbbbe61600efeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 07/26] fix: scale the centered binomial noise of
 trlweSymEncryptZero to the torus

numeric_limits<P> is not numeric_limits<P::T>: its digits are 0, so the noise was
divided by q and vanished. The sample is negative half of the time, so it is
scaled as a signed value.
---
 include/trlwe.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/trlwe.hpp b/include/trlwe.hpp
index 7e8b792..e0ba491 100644
--- a/include/trlwe.hpp
+++ b/include/trlwe.hpp
@@ -29,7 +29,11 @@ TRLWE<P> trlweSymEncryptZero(const uint η, const Key<P> &key)
         0, std::numeric_limits<typename P::T>::max());
     alignas(64) TRLWE<P> c;
     for (typename P::T &i : c[P::k])
-        i = (CenteredBinomial<P>(η) << std::numeric_limits<P>::digits) / P::q;
+        i = static_cast<typename P::T>(
+            (static_cast<__int128_t>(static_cast<std::make_signed_t<typename P::T>>(
+                 CenteredBinomial<P>(η)))
+             << std::numeric_limits<typename P::T>::digits) /
+            static_cast<__int128_t>(P::q));
     for (int k = 0; k < P::k; k++) {
         for (typename P::T &i : c[k]) i = Torusdist(generator);
         alignas(64) std::array<typename P::T, P::n> partkey;
-- 
2.43.0


From 5ecde1252f4ba88bb97d78f513d9fff76ef998fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 08/26] fix: CenteredBinomial keeps its bit buffer per thread
 and refills it exactly

The buffer was shared by all threads without synchronisation although encryptions
run in parallel regions, and the counter was not reset when the buffer was
refilled, so that one draw after each counter wrap used an exhausted buffer.
---
 include/utils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index 3255a0b..0cbe572 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -142,14 +142,15 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
 template <class P>
 inline typename P::T CenteredBinomial(uint η)
 {
-    static uint64_t buf;
-    static uint_fast8_t count = 64;
+    static thread_local uint64_t buf;
+    static thread_local uint_fast8_t count = 64;
     typename P::T acc = 0;
     std::uniform_int_distribution<uint64_t> dist(
         0, std::numeric_limits<uint64_t>::max());
     for (int i = 0; i < 2 * η; i++) {
         if (count >= 64) {
             buf = dist(generator);
+            count = 0;
         }
         acc += buf & 1;
         buf >>= 1;
-- 
2.43.0


From 418f3b51f54d851bbff3fda0135f31d08b82961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 09/26] fix: convert the 64 bit Gaussian sample through a
 signed integer

Converting a negative double to an unsigned integer is undefined behaviour.
---
 include/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index 0cbe572..ae6a9a6 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -132,7 +132,7 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
         static const double _2p64 = std::pow(2., 64);
         std::normal_distribution<double> distribution(0., 1.0);
         const double val = stdev * distribution(generator) * _2p64;
-        const uint64_t ival = static_cast<typename P::T>(val);
+        const uint64_t ival = static_cast<int64_t>(val);
         return ival + center;
     }
     else
-- 
2.43.0


From 3969c573c648b06ac228f3ce9f0cdb57bd687fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 10/26] fix: parameter description covers the level 1 noise and
 every gadget base
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

portablelvl1param::α was archived without ever being initialised and did not take
part in the comparison; the archived form of lweParams left out Bg of levels 1 and 2,
so a loaded description kept the loading program's values; portablelvl22param could
not be archived at all.
---
 include/lweParams.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index 09f48e7..4cc1897 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -6,6 +6,16 @@
 #include "params.hpp"
 
 namespace TFHEpp {
+// fresh noise of a level: standard deviation or binomial parameter
+template <class P>
+double portablenoise()
+{
+    if constexpr (P::errordist == ErrorDistribution::ModularGaussian)
+        return P::α;
+    else
+        return P::η;
+}
+
 struct portablelvl0param {
     std::uint32_t n;           // dimension
     double α;                  // fresh noise
@@ -46,6 +56,7 @@ struct portablelvl1param {
           l(lvl1param::l),
           Bgbit(lvl1param::Bgbit),
           Bg(lvl1param::Bg),
+          α(portablenoise<lvl1param>()),
           approx_bit(std::numeric_limits<typename lvl1param::T>::digits)
     {
     }
@@ -53,13 +64,13 @@ struct portablelvl1param {
     template <class Archive>
     void serialize(Archive& archive)
     {
-        archive(nbit, n, l, Bgbit, Bg, approx_bit);
+        archive(nbit, n, l, Bgbit, Bg, α, approx_bit);
     }
 
     bool operator==(const portablelvl1param& in) const
     {
         return (nbit == in.nbit) && (n == in.n) && (l == in.l) &&
-               (Bgbit == in.Bgbit) && (Bg == in.Bg) &&
+               (Bgbit == in.Bgbit) && (Bg == in.Bg) && (α == in.α) &&
                (approx_bit == in.approx_bit);
     };
 };
@@ -181,6 +192,12 @@ struct portablelvl22param {
     {
     }
 
+    template <class Archive>
+    void serialize(Archive& archive)
+    {
+        archive(t, basebit);
+    }
+
     bool operator==(const portablelvl22param& in) const
     {
         return (t == in.t) && (basebit == in.basebit);  // && (α == in.α);
@@ -202,8 +219,8 @@ struct lweParams {
     void serialize(Archive& archive)
     {
         archive(lvl0.n, lvl0.α, lvl0.approx_bit, lvl1.nbit, lvl1.n, lvl1.l,
-                lvl1.Bgbit, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n, lvl2.l,
-                lvl2.Bgbit, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
+                lvl1.Bgbit, lvl1.Bg, lvl1.α, lvl1.approx_bit, lvl2.nbit, lvl2.n,
+                lvl2.l, lvl2.Bgbit, lvl2.Bg, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
                 lvl10.α, lvl20.t, lvl20.basebit, lvl20.α, lvl21.t,
                 lvl21.basebit, lvl22.t, lvl22.basebit /*lvl22.α*/);
     }
-- 
2.43.0


From 96e8846cc125ec5a3286cdac09b4b1069f7a49c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 11/26] fix: SubsetPrivKeySwitch takes digits of a target level
 value

The 32 bit target value was shifted by amounts computed from the 64 bit domain
type, which is undefined (and only worked because x86 shifts modulo 32).
---
 include/keyswitch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 301bbce..9db5be5 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -330,8 +330,8 @@ void SubsetPrivKeySwitch(TRLWE<typename P::targetP> &res,
         const typename P::targetP::T aibar = tlwe[i] + prec_offset;
 
         for (int j = 0; j < P::t; j++) {
-            const typename P::domainP::T aij =
-                (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
+            const typename P::targetP::T aij =
+                (aibar >> (std::numeric_limits<typename P::targetP::T>::digits -
                            (j + 1) * P::basebit)) &
                 mask;
 
-- 
2.43.0


From 9e2745a989c4e18e9f49af611193bee8dab545af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 12/26] fix: key switching covers every coordinate when the
 module rank is not 1

SubsetIdentityKeySwitch, subikskgen, TLWE2TRLWEIKS and tlwe2trlweikskgen assumed
k = 1; with the k > 1 parameter sets they skipped coordinates, used an uninitialised
part of the key and read a mask coordinate as the body.
---
 include/cloudkey.hpp  |  5 +++--
 include/keyswitch.hpp | 14 ++++++++------
 include/params.hpp    |  2 +-
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index df825be..00cd69b 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -148,7 +148,7 @@ void tlwe2trlweikskgen(TLWE2TRLWEIKSKey<P>& iksk,
                        const Key<typename P::domainP>& domainkey,
                        const Key<typename P::targetP>& targetkey)
 {
-    for (int i = 0; i < P::domainP::n; i++)
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++)
         for (int j = 0; j < P::t; j++)
             for (uint32_t k = 0; k < (1 << P::basebit) - 1; k++) {
                 Polynomial<typename P::targetP> p = {};
@@ -257,7 +257,8 @@ void subikskgen(SubsetKeySwitchingKey<P>& ksk,
                 const Key<typename P::domainP>& domainkey)
 {
     Key<typename P::targetP> subkey;
-    for (int i = 0; i < P::targetP::n; i++) subkey[i] = domainkey[i];
+    for (int i = 0; i < P::targetP::k * P::targetP::n; i++)
+        subkey[i] = domainkey[i];
     for (int i = 0;
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n; i++)
         for (int j = 0; j < P::t; j++)
diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 9db5be5..91bbcec 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -170,7 +170,7 @@ void SubsetIdentityKeySwitch(TLWE<typename P::targetP> &res,
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n;
          i++) {
         const typename P::domainP::T aibar =
-            tlwe[i + P::targetP::n] + prec_offset;
+            tlwe[i + P::targetP::k * P::targetP::n] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
                 (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
@@ -198,15 +198,17 @@ void TLWE2TRLWEIKS(TRLWE<typename P::targetP> &res,
     constexpr uint32_t target_digit =
         std::numeric_limits<typename P::targetP::T>::digits;
     if constexpr (domain_digit == target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n];
+        res[P::targetP::k][0] = tlwe[P::domainP::k * P::domainP::n];
     else if constexpr (domain_digit > target_digit)
-        res[P::targetP::k][0] = (tlwe[P::domainP::n] +
+        res[P::targetP::k][0] = (tlwe[P::domainP::k * P::domainP::n] +
                                  (1ULL << (domain_digit - target_digit - 1))) >>
                                 (domain_digit - target_digit);
     else if constexpr (domain_digit < target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n]
-                                << (target_digit - domain_digit);
-    for (int i = 0; i < P::domainP::n; i++) {
+        res[P::targetP::k][0] =
+            static_cast<typename P::targetP::T>(
+                tlwe[P::domainP::k * P::domainP::n])
+            << (target_digit - domain_digit);
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++) {
         const typename P::domainP::T aibar = tlwe[i] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
diff --git a/include/params.hpp b/include/params.hpp
index f72dd33..adf2701 100644
--- a/include/params.hpp
+++ b/include/params.hpp
@@ -159,7 +159,7 @@ template <class P>
 using TLWE2TRLWEIKSKey = std::array<
     std::array<std::array<TRLWE<typename P::targetP>, (1 << P::basebit) - 1>,
                P::t>,
-    P::domainP::n>;
+    P::domainP::k * P::domainP::n>;
 template <class P>
 using EvalAutoKey = std::array<HalfTRGSWFFT<P>, P::k>;
 template <class P>
-- 
2.43.0


From db98c2fa7efefd70d5f5bb5dc1d57df4fbfb2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 13/26] fix: multiplexers on ring ciphertexts cover every
 component and use their message scale

HomMUXwoIKSandSE and both HomMUXwoSE added only components 0 and 1, put the offset
on component 1 and ignored the mu template argument.
---
 include/gate.hpp | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/include/gate.hpp b/include/gate.hpp
index bd4bd2c..e8987e7 100644
--- a/include/gate.hpp
+++ b/include/gate.hpp
@@ -276,21 +276,21 @@ void HomMUXwoIKSandSE(TRLWE<typename bkP::targetP> &res,
 {
     TLWE<typename bkP::domainP> temp1;
     TLWE<typename bkP::domainP> temp0;
-    for (int i = 0; i <= bkP::domainP::n; i++) temp1[i] = cs[i] + c1[i];
-    for (int i = 0; i <= bkP::domainP::n; i++) temp0[i] = -cs[i] + c0[i];
-    temp1[lvl0param::n] -= bkP::domainP::μ;
-    temp0[lvl0param::n] -= bkP::domainP::μ;
+    for (int i = 0; i <= bkP::domainP::k * bkP::domainP::n; i++)
+        temp1[i] = cs[i] + c1[i];
+    for (int i = 0; i <= bkP::domainP::k * bkP::domainP::n; i++)
+        temp0[i] = -cs[i] + c0[i];
+    temp1[bkP::domainP::k * bkP::domainP::n] -= bkP::domainP::μ;
+    temp0[bkP::domainP::k * bkP::domainP::n] -= bkP::domainP::μ;
     TRLWE<typename bkP::targetP> and0;
     BlindRotate<bkP>(res, temp1, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
     BlindRotate<bkP>(and0, temp0, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
 
-    for (int i = 0; i < bkP::targetP::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += bkP::targetP::μ;
+    for (int k = 0; k < bkP::targetP::k + 1; k++)
+        for (int i = 0; i < bkP::targetP::n; i++) res[k][i] += and0[k][i];
+    res[bkP::targetP::k][0] += bkP::targetP::μ;
 }
 
 template <class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -308,15 +308,13 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     and0[brP::domainP::k * brP::domainP::n] -= brP::domainP::μ;
     TRLWE<typename brP::targetP> and0trlwe;
     BlindRotate<brP>(res, and1, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k < brP::targetP::k + 1; k++)
+        for (int i = 0; i < brP::targetP::n; i++) res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += μ;
 }
 
 template <class iksP, class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -337,15 +335,13 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     IdentityKeySwitch<iksP>(and0, temp0, ek.getiksk<iksP>());
     TRLWE<typename brP::targetP> and0trlwe;
     BlindRotate<brP>(res, and1, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
-                     μpolygen<typename brP::targetP, brP::targetP::μ>());
+                     μpolygen<typename brP::targetP, μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k < brP::targetP::k + 1; k++)
+        for (int i = 0; i < brP::targetP::n; i++) res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += μ;
 }
 
 void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
-- 
2.43.0


From cb7d17dd2bd292ecdc94d8e514cf5f7f4798b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 14/26] fix: LROMUX rotates every component of the ring
 ciphertext

---
 include/cmuxmem.hpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/cmuxmem.hpp b/include/cmuxmem.hpp
index db86fed..cd01c77 100644
--- a/include/cmuxmem.hpp
+++ b/include/cmuxmem.hpp
@@ -75,25 +75,23 @@ void LROMUX(vector<TLWE<P>> &res,
             const TRLWE<P> &data)
 {
     TRLWE<P> temp, acc;
-    PolynomialMulByXaiMinusOne<P>(temp[0], data[0], 2 * P::n - (P::n >> 1));
-    PolynomialMulByXaiMinusOne<P>(temp[1], data[1], 2 * P::n - (P::n >> 1));
+    for (int k = 0; k < P::k + 1; k++)
+        PolynomialMulByXaiMinusOne<P>(temp[k], data[k],
+                                      2 * P::n - (P::n >> 1));
     trgswfftExternalProduct<P>(temp, temp, address[width_bit - 1]);
-    for (int i = 0; i < P::n; i++) {
-        // initialize acc
-        acc[0][i] = temp[0][i] + data[0][i];
-        acc[1][i] = temp[1][i] + data[1][i];
-    }
+    for (int k = 0; k < P::k + 1; k++)
+        for (int i = 0; i < P::n; i++) {
+            // initialize acc
+            acc[k][i] = temp[k][i] + data[k][i];
+        }
 
     for (uint32_t bit = 2; bit <= width_bit; bit++) {
-        PolynomialMulByXaiMinusOne<P>(temp[0], acc[0],
-                                      2 * P::n - (P::n >> bit));
-        PolynomialMulByXaiMinusOne<P>(temp[1], acc[1],
-                                      2 * P::n - (P::n >> bit));
+        for (int k = 0; k < P::k + 1; k++)
+            PolynomialMulByXaiMinusOne<P>(temp[k], acc[k],
+                                          2 * P::n - (P::n >> bit));
         trgswfftExternalProduct<P>(temp, temp, address[width_bit - bit]);
-        for (int i = 0; i < P::n; i++) {
-            acc[0][i] += temp[0][i];
-            acc[1][i] += temp[1][i];
-        }
+        for (int k = 0; k < P::k + 1; k++)
+            for (int i = 0; i < P::n; i++) acc[k][i] += temp[k][i];
     }
 
     constexpr uint32_t word = 1 << (P::nbit - width_bit);
-- 
2.43.0


From 756a733ef72fcbd3b8c0513a7581a52a75bcd524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 15/26] fix: CircuitBootstrappingFFTwithInv adds the gadget of
 every component

---
 include/circuitbootstrapping.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/circuitbootstrapping.hpp b/include/circuitbootstrapping.hpp
index 8406a78..c3fc5f6 100644
--- a/include/circuitbootstrapping.hpp
+++ b/include/circuitbootstrapping.hpp
@@ -154,10 +154,9 @@ void CircuitBootstrappingFFTwithInv(
             TwistIFFT<typename privksP::targetP>(trgswfft[i][j], trgsw[i][j]);
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
-    for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
-    }
+    for (int i = 0; i < privksP::targetP::l; i++)
+        for (int k = 0; k < privksP::targetP::k + 1; k++)
+            trgsw[i + k * privksP::targetP::l][k][0] += h[i];
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
             TwistIFFT<typename privksP::targetP>(invtrgswfft[i][j],
@@ -180,10 +179,9 @@ void CircuitBootstrappingFFTwithInv(
             TwistIFFT<typename privksP::targetP>(trgswfft[i][j], trgsw[i][j]);
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
-    for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
-    }
+    for (int i = 0; i < privksP::targetP::l; i++)
+        for (int k = 0; k < privksP::targetP::k + 1; k++)
+            trgsw[i + k * privksP::targetP::l][k][0] += h[i];
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
             TwistIFFT<typename privksP::targetP>(invtrgswfft[i][j],
-- 
2.43.0


From 97326e0800a90d7790a78a2947b3052087327795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 16/26] fix: BlindRotate with a ring test vector names the
 bootstrapping parameter

---
 include/gatebootstrapping.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 6fb3779..1c717e6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -119,8 +119,7 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                 << bitwidth;
         if (ā == 0) continue;
         // Do not use CMUXFFT to avoid unnecessary copy.
-        CMUXFFTwithPolynomialMulByXaiMinusOne<typename P::targetP>(res,
-                                                                   bkfft[i], ā);
+        CMUXFFTwithPolynomialMulByXaiMinusOne<P>(res, bkfft[i], ā);
     }
 #endif
 }
-- 
2.43.0


From 01eb379a99e9012d7aa19b060a56e3b497ebed90 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 17/26] fix: emplacebk2bkfft converts every element of the
 bootstrapping key

---
 include/cloudkey.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 00cd69b..456d792 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -480,30 +480,34 @@ struct EvalKey {
         if constexpr (std::is_same_v<P, lvl01param>) {
             bkfftlvl01 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl01param>>();
-            for (int i = 0; i < lvl01param::domainP::n; i++)
-                (*bkfftlvl01)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][0]);
+            for (size_t i = 0; i < bkfftlvl01->size(); i++)
+                for (size_t j = 0; j < (*bklvl01)[i].size(); j++)
+                    (*bkfftlvl01)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh1param>) {
             bkfftlvlh1 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh1param>>();
-            for (int i = 0; i < lvlh1param::domainP::n; i++)
-                (*bkfftlvlh1)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][0]);
+            for (size_t i = 0; i < bkfftlvlh1->size(); i++)
+                for (size_t j = 0; j < (*bklvlh1)[i].size(); j++)
+                    (*bkfftlvlh1)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvl02param>) {
             bkfftlvl02 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl02param>>();
-            for (int i = 0; i < lvl02param::domainP::n; i++)
-                (*bkfftlvl02)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][0]);
+            for (size_t i = 0; i < bkfftlvl02->size(); i++)
+                for (size_t j = 0; j < (*bklvl02)[i].size(); j++)
+                    (*bkfftlvl02)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh2param>) {
             bkfftlvlh2 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh2param>>();
-            for (int i = 0; i < lvlh2param::domainP::n; i++)
-                (*bkfftlvlh2)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][0]);
+            for (size_t i = 0; i < bkfftlvlh2->size(); i++)
+                for (size_t j = 0; j < (*bklvlh2)[i].size(); j++)
+                    (*bkfftlvlh2)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][j]);
         }
         else
             static_assert(false_v<typename P::T>, "Not predefined parameter!");
-- 
2.43.0


From 01f69f1d3e3dfcd6577a053d71e820251403cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 18/26] fix: the tables of X^a-1 in the frequency domain are
 aligned for the FFT kernels

---
 include/mulfft.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 50c48ac..b654580 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -368,10 +368,10 @@ inline void PolyMulNaieveRescaleUnsigned(Polynomial<P> &res,
 }
 
 template <class P>
-std::unique_ptr<std::array<PolynomialInFD<P>, 2 * P::n>> XaittGen()
+std::unique_ptr<aligned_array<PolynomialInFD<P>, 2 * P::n>> XaittGen()
 {
-    std::unique_ptr<std::array<PolynomialInFD<P>, 2 * P::n>> xaitt =
-        std::make_unique<std::array<PolynomialInFD<P>, 2 * P::n>>();
+    std::unique_ptr<aligned_array<PolynomialInFD<P>, 2 * P::n>> xaitt =
+        std::make_unique<aligned_array<PolynomialInFD<P>, 2 * P::n>>();
     for (int i = 0; i < 2 * P::n; i++) {
         std::array<typename P::T, P::n> xai = {};
         xai[0] = -1;
@@ -403,11 +403,11 @@ std::unique_ptr<std::array<PolynomialNTT<P>, 2 * P::n>> XaittGenNTT()
 
 #if defined(USE_TERNARY) || defined(USE_KEY_BUNDLE)
 alignas(64) static const std::unique_ptr<
-    const std::array<PolynomialInFD<lvl1param>, 2 * lvl1param::n>> xaittlvl1 =
-    XaittGen<lvl1param>();
+    const aligned_array<PolynomialInFD<lvl1param>, 2 * lvl1param::n>>
+    xaittlvl1 = XaittGen<lvl1param>();
 alignas(64) static const std::unique_ptr<
-    const std::array<PolynomialInFD<lvl2param>, 2 * lvl2param::n>> xaittlvl2 =
-    XaittGen<lvl2param>();
+    const aligned_array<PolynomialInFD<lvl2param>, 2 * lvl2param::n>>
+    xaittlvl2 = XaittGen<lvl2param>();
 #endif
 #ifdef USE_TERNARY
 template <class P>
-- 
2.43.0


From a03a9de5669bd1237204cb5351dfc1cef4e77df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 19/26] fix: XaittGenNTT indexes the array, not the pointer to
 it

---
 include/mulfft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index b654580..998a726 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -396,7 +396,7 @@ std::unique_ptr<std::array<PolynomialNTT<P>, 2 * P::n>> XaittGenNTT()
             xai[i] += 1;
         else
             xai[i - P::n] -= 1;
-        TwistINTT<P>((*xaitt[i]), xai);
+        TwistINTT<P>((*xaitt)[i], xai);
     }
     return xaitt;
 }
-- 
2.43.0


From 97a62c373226fac78515115bf8edff09528db173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 20/26] fix: PolynomialMulByXaiMinusOneInFD handles lvl2 and
 exponents divisible by 2N

---
 include/mulfft.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 998a726..c0727e2 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -416,10 +416,13 @@ inline void PolynomialMulByXaiMinusOneInFD(PolynomialInFD<P> &res,
                                            const int a)
 {
     const int mod = a % (2 * P::n);
-    const int index = mod > 0 ? mod : mod + (2 * P::n);
+    const int index = mod >= 0 ? mod : mod + (2 * P::n);
     if constexpr (std::is_same_v<P, lvl1param>) {
         MulInFD<P::n>(res, poly, (*xaittlvl1)[index]);
     }
+    else if constexpr (std::is_same_v<P, lvl2param>) {
+        MulInFD<P::n>(res, poly, (*xaittlvl2)[index]);
+    }
 }
 #endif
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From 2e73f957740d516706032f4863af4999b40b17f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 21/26] fix: the FFT scaling factor belongs to the processor,
 not to its first caller

---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 31b0f34..8109a83 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -134,7 +134,7 @@ void FFT_Processor_Spqlios::execute_reverse_torus64(double* res, const uint64_t*
 
 void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *a) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -180,7 +180,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *
 
 void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double *a, const uint32_t q) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -226,7 +226,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double
 
 void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const double *a, const double Δ) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -270,7 +270,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double* a) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
@@ -340,7 +340,7 @@ void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double*
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const double* a, const double Δ) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
-- 
2.43.0


From 2838f9487342e5906e48ab6aac8df5a602a550d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 22/26] fix: the FFT processor releases its tables the way it
 obtained them

---
 thirdparties/spqlios/fft_processor_spqlios.cpp   |  5 +++--
 thirdparties/spqlios/fft_processor_spqlios.h     |  2 ++
 thirdparties/spqlios/spqlios-fft-impl-avx512.cpp | 12 ++++++++++++
 thirdparties/spqlios/spqlios-fft-impl.cpp        | 12 ++++++++++++
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 8109a83..26d0efb 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -369,8 +369,9 @@ void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const
 }
 
 FFT_Processor_Spqlios::~FFT_Processor_Spqlios() {
-    delete (tables_direct);
-    delete (tables_reverse);
+    delete_fft_table(tables_direct);
+    delete_ifft_table(tables_reverse);
+    delete[] reva;
     delete[] cosomegaxminus1;
 }
 
diff --git a/thirdparties/spqlios/fft_processor_spqlios.h b/thirdparties/spqlios/fft_processor_spqlios.h
index ae21e42..ad51bf7 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.h
+++ b/thirdparties/spqlios/fft_processor_spqlios.h
@@ -8,6 +8,8 @@ extern "C"{
     double *fft_table_get_buffer(const void *tables);
     void *new_ifft_table(int32_t nn);
     double *ifft_table_get_buffer(const void *tables);
+    void delete_fft_table(void *tables);
+    void delete_ifft_table(void *tables);
     void fft_model(const void *tables);
     void ifft_model(void *tables);
     void fft(const void *tables, double *data);
diff --git a/thirdparties/spqlios/spqlios-fft-impl-avx512.cpp b/thirdparties/spqlios/spqlios-fft-impl-avx512.cpp
index 7bfae69..86b33e4 100644
--- a/thirdparties/spqlios/spqlios-fft-impl-avx512.cpp
+++ b/thirdparties/spqlios/spqlios-fft-impl-avx512.cpp
@@ -118,6 +118,18 @@ extern "C" double *ifft_table_get_buffer(const void *tables) {
   return reps->aligned_data;
 }
 
+extern "C" void delete_fft_table(void *tables) {
+  FFT_PRECOMP *reps = (FFT_PRECOMP *) tables;
+  free(reps->buf);
+  delete reps;
+}
+
+extern "C" void delete_ifft_table(void *tables) {
+  IFFT_PRECOMP *reps = (IFFT_PRECOMP *) tables;
+  free(reps->buf);
+  delete reps;
+}
+
 //c has size n/2
 extern "C" void fft_model(const void *tables) {
   double tmp0[4];
diff --git a/thirdparties/spqlios/spqlios-fft-impl.cpp b/thirdparties/spqlios/spqlios-fft-impl.cpp
index c6148fe..7c3bc94 100644
--- a/thirdparties/spqlios/spqlios-fft-impl.cpp
+++ b/thirdparties/spqlios/spqlios-fft-impl.cpp
@@ -200,6 +200,18 @@ extern "C" double *ifft_table_get_buffer(const void *tables) {
     return reps->aligned_data;
 }
 
+extern "C" void delete_fft_table(void *tables) {
+    FFT_PRECOMP *reps = (FFT_PRECOMP *) tables;
+    free(reps->buf);
+    delete reps;
+}
+
+extern "C" void delete_ifft_table(void *tables) {
+    IFFT_PRECOMP *reps = (IFFT_PRECOMP *) tables;
+    free(reps->buf);
+    delete reps;
+}
+
 //c has size n/2
 extern "C" void fft_model(const void *tables) {
     double tmp0[4];
-- 
2.43.0


From 4d8a925dab85b7c461336f306cf835d8651754ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 23/26] fix: the private key switching keys are allocated for
 their own alignment

---
 include/cloudkey.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 456d792..a3f6382 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -601,20 +601,17 @@ struct EvalKey {
     {
         if constexpr (std::is_same_v<P, lvl11param>) {
             privksklvl11[key] =
-                std::unique_ptr<PrivateKeySwitchingKey<lvl11param>>(new (
-                    std::align_val_t(64)) PrivateKeySwitchingKey<lvl11param>());
+                std::make_unique<PrivateKeySwitchingKey<lvl11param>>();
             privkskgen<lvl11param>(*privksklvl11[key], func, sk);
         }
         else if constexpr (std::is_same_v<P, lvl21param>) {
             privksklvl21[key] =
-                std::unique_ptr<PrivateKeySwitchingKey<lvl21param>>(new (
-                    std::align_val_t(64)) PrivateKeySwitchingKey<lvl21param>());
+                std::make_unique<PrivateKeySwitchingKey<lvl21param>>();
             privkskgen<lvl21param>(*privksklvl21[key], func, sk);
         }
         else if constexpr (std::is_same_v<P, lvl22param>) {
             privksklvl22[key] =
-                std::unique_ptr<PrivateKeySwitchingKey<lvl22param>>(new (
-                    std::align_val_t(64)) PrivateKeySwitchingKey<lvl22param>());
+                std::make_unique<PrivateKeySwitchingKey<lvl22param>>();
             privkskgen<lvl22param>(*privksklvl22[key], func, sk);
         }
         else
-- 
2.43.0


From 6930dbbd19ee70af22bd6b654451a7296e9beded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 24/26] fix: buffers of the BFV style multiplication are
 aligned for the FFT kernels

---
 include/bfv++.hpp  | 6 +++---
 include/mulfft.hpp | 2 +-
 include/params.hpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bfv++.hpp b/include/bfv++.hpp
index 8f21f12..c47c3db 100644
--- a/include/bfv++.hpp
+++ b/include/bfv++.hpp
@@ -14,7 +14,7 @@ template <class P>
 void TRLWEMultWithoutRelinerization(TRLWE3<P> &res, const TRLWE<P> &a,
                                     const TRLWE<P> &b)
 {
-    PolynomialInFD<P> ffta, fftb, fftc;
+    alignas(64) PolynomialInFD<P> ffta, fftb, fftc;
     TwistIFFTUInt<P>(ffta, a[0]);
     TwistIFFTUInt<P>(fftb, b[1]);
     MulInFD<P::n>(fftc, ffta, fftb);
@@ -44,9 +44,9 @@ inline void relinKeySwitch(TRLWE<P> &res, const Polynomial<P> &poly,
 {
     DecomposedPolynomial<P> decvec;
     Decomposition<P>(decvec, poly);
-    PolynomialInFD<P> decvecfft;
+    alignas(64) PolynomialInFD<P> decvecfft;
     TwistIFFT<P>(decvecfft, decvec[0]);
-    TRLWEInFD<P> resfft;
+    alignas(64) TRLWEInFD<P> resfft;
     MulInFD<P::n>(resfft[0], decvecfft, relinkeyfft[0][0]);
     MulInFD<P::n>(resfft[1], decvecfft, relinkeyfft[0][1]);
     for (int i = 1; i < P::l; i++) {
diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index c0727e2..37726b2 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -320,7 +320,7 @@ inline void PolyMulRescaleUnsigned(Polynomial<P> &res, const Polynomial<P> &a,
                                    const Polynomial<P> &b)
 {
     // if constexpr (std::is_same_v<typename P::T, uint32_t>) {
-    PolynomialInFD<P> ffta, fftb;
+    alignas(64) PolynomialInFD<P> ffta, fftb;
     TwistIFFTUInt<P>(ffta, a);
     TwistIFFTUInt<P>(fftb, b);
     MulInFD<P::n>(ffta, fftb);
diff --git a/include/params.hpp b/include/params.hpp
index adf2701..d5a6c33 100644
--- a/include/params.hpp
+++ b/include/params.hpp
@@ -177,7 +177,7 @@ using SubsetPrivateKeySwitchingKey = std::array<
 template <class P>
 using relinKey = std::array<TRLWE<P>, P::l>;
 template <class P>
-using relinKeyFFT = std::array<TRLWEInFD<P>, P::l>;
+using relinKeyFFT = aligned_array<TRLWEInFD<P>, P::l>;
 
 #define TFHEPP_EXPLICIT_INSTANTIATION_TLWE(fun) \
     fun(lvl0param);                             \
-- 
2.43.0


From 555576f03b0265ce0f03bbf79f4f03ed726793b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 25/26] fix: the CGGI16 and CGGI19 parameter sets compile again
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Dummy key switch parameters need a positive basebit (the key type has
2^(basebit-1) entries), μ has to be signed where it is a template argument of
the gates, and lvl11 of CGGI19 switches within lvl1.
---
 include/params/CGGI16.hpp | 12 ++++++------
 include/params/CGGI19.hpp | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/params/CGGI16.hpp b/include/params/CGGI16.hpp
index c724f60..ed655be 100644
--- a/include/params/CGGI16.hpp
+++ b/include/params/CGGI16.hpp
@@ -13,7 +13,7 @@ struct lvl0param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = 2.44e-5;
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1 << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -51,7 +51,7 @@ struct lvl1param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = 3.73e-9;
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1 << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -71,7 +71,7 @@ struct lvl2param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -44);
     using T = uint64_t;
-    static constexpr T μ = 1ULL << 61;
+    static constexpr std::make_signed_t<T> μ = 1LL << 61;
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ = μ;
 };
@@ -122,7 +122,7 @@ struct lvl1hparam {
 struct lvl11param {
     static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        1;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl1param::α;  // key noise
@@ -144,7 +144,7 @@ struct lvl21param {
 struct lvl20param {
     static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        1;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl0param::α;  // key noise
@@ -167,7 +167,7 @@ struct lvl2hparam {
 // Dummy
 struct lvl22param {
     static constexpr std::uint32_t t = 0;
-    static constexpr std::uint32_t basebit = 0;
+    static constexpr std::uint32_t basebit = 1;
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl2param::α;
diff --git a/include/params/CGGI19.hpp b/include/params/CGGI19.hpp
index 4be0990..e7ea221 100644
--- a/include/params/CGGI19.hpp
+++ b/include/params/CGGI19.hpp
@@ -15,7 +15,7 @@ struct lvl0param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -15);
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1 << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -53,7 +53,7 @@ struct lvl1param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -25);
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1 << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -73,7 +73,7 @@ struct lvl2param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -44);
     using T = uint64_t;
-    static constexpr T μ = 1ULL << 61;
+    static constexpr std::make_signed_t<T> μ = 1LL << 61;
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ = μ;
 };
@@ -103,12 +103,12 @@ struct lvl3param {
 struct lvl11param {
     static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        1;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
-    static const inline double α = lvl0param::α;  // key noise
+    static const inline double α = lvl1param::α;  // key noise
     using domainP = lvl1param;
-    using targetP = lvl0param;
+    using targetP = lvl1param;
 };
 
 struct lvl10param {
@@ -146,7 +146,7 @@ struct lvl21param {
 struct lvl20param {
     static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        1;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl0param::α;  // key noise
@@ -169,7 +169,7 @@ struct lvl2hparam {
 // Dummy
 struct lvl22param {
     static constexpr std::uint32_t t = 0;
-    static constexpr std::uint32_t basebit = 0;
+    static constexpr std::uint32_t basebit = 1;
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl2param::α;
-- 
2.43.0


From 547fff10a7488a1d089bd66db88333d73c59484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 26/26] fix: the ternary CMUX declared a TRGSWFFT with less
 than its type's alignment

---
 include/detwfa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/detwfa.hpp b/include/detwfa.hpp
index 9eef779..b9dc543 100644
--- a/include/detwfa.hpp
+++ b/include/detwfa.hpp
@@ -49,7 +49,7 @@ void CMUXFFTwithPolynomialMulByXaiMinusOne(
     }
     else {
 #ifdef USE_TERNARY_CMUX
-        alignas(32) TRGSWFFT<typename bkP::targetP> trgsw;
+        alignas(64) TRGSWFFT<typename bkP::targetP> trgsw;
         if constexpr (std::is_same_v<typename bkP::targetP, lvl1param>) {
             trgsw = trgswonelvl1;
         }
-- 
2.43.0

