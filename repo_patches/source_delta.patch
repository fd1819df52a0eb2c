From cc147f84ca15f9f2db6f4662f82c42220d688e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 01/16] fix: point subtraction and doubling at infinity

P - Inf used the coordinates of infinity as a finite point, Inf - P lost the
curve pointer, and doubling infinity dereferenced a null curve.
---
 includes/ecc_template.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 4eb6e95..9116c59 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -353,9 +353,10 @@ Field_XXX_p,
 Field_XXX_n
 >::operator- (const Point_XXX& P) const
 {
-    assert(*this->curve == *P.curve);
+    if(P.is_inf)
+        return *static_cast<const Point_XXX*>(this);
 
-    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, curve);
+    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);
 
     
     return *this + Q;
@@ -553,6 +554,9 @@ Field_XXX_p,
 Field_XXX_n
 >::pointDouble() const
 {
+    if(is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
     Field_XXX_p T1;
     Field_XXX_p T2;
     Field_XXX_p S;
-- 
2.43.0


From f43d7f44d2c6fb485b4bd537a2d66c57bc7fc4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 02/16] fix: define Point::operator*=(mpz_class)

It was declared but never defined, so using it failed to link.
---
 includes/ecc_template.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 9116c59..ab2e10f 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -462,6 +462,23 @@ Field_XXX_n
     return *static_cast<Point_XXX*>(this);;
 }
 
+template<
+        typename Curve_XXX,
+        typename Point_XXX, 
+        typename Field_XXX_p, 
+        typename Field_XXX_n
+        >
+Point_XXX& Point<
+Curve_XXX, 
+Point_XXX, 
+Field_XXX_p, 
+Field_XXX_n
+>::operator*= (const mpz_class& a)
+{
+    *this = *this * a;
+    return *static_cast<Point_XXX*>(this);;
+}
+
 template<
         typename Curve_XXX,
         typename Point_XXX, 
-- 
2.43.0


From 7f7ab4a361fe408a04ae10c67ccba559690e1006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 03/16] fix: compare ciphertexts with the other ciphertext

CTXT::operator== compared the ciphertext with itself and was always true.
---
 src/dme/dme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index f3d8038..257edac 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -131,7 +131,7 @@ CTXT& CTXT::operator=(const CTXT& ctxt)
 
 bool CTXT::operator==(const CTXT& ctxt) const
 {
-    return this->u == u && this->mv == mv;
+    return this->u == ctxt.u && this->mv == ctxt.mv;
 }
 
 
-- 
2.43.0


From 0a9b60d5578d242fa37dc4478c80b9304e28c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 04/16] fix: make key pair generation compile and ElGamal
 keyGen return its key

generateKeyPair built a base-class point that KeyPair does not accept, and
ElGamal::keyGen had no return statement, so ElGamal could not be compiled.
---
 includes/ecc_bn254.hpp     | 8 ++++----
 includes/ecc_secp256r1.hpp | 8 ++++----
 includes/ecc_template.hpp  | 4 ++--
 includes/elgamal.hpp       | 6 +++++-
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/includes/ecc_bn254.hpp b/includes/ecc_bn254.hpp
index 722c2a1..93a922b 100644
--- a/includes/ecc_bn254.hpp
+++ b/includes/ecc_bn254.hpp
@@ -13,14 +13,14 @@ class KeyPair_bn254;
 class Point_bn254;
 class Curve_bn254;
 
-class KeyPair_bn254 : public KeyPair<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
+class Point_bn254 : public Point<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
 {
-    using KeyPair::KeyPair;
+    using Point::Point;
 };
 
-class Point_bn254 : public Point<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
+class KeyPair_bn254 : public KeyPair<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
 {
-    using Point::Point;
+    using KeyPair::KeyPair;
 };
 
 class Curve_bn254 : public Curve<Curve_bn254, Point_bn254, field::Field_bn254_p, field::Field_bn254_n>
diff --git a/includes/ecc_secp256r1.hpp b/includes/ecc_secp256r1.hpp
index 6c27dcf..201c432 100644
--- a/includes/ecc_secp256r1.hpp
+++ b/includes/ecc_secp256r1.hpp
@@ -12,14 +12,14 @@ class KeyPair_secp256r1;
 class Point_secp256r1;
 class Curve_secp256r1;
 
-class KeyPair_secp256r1 : public KeyPair<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
+class Point_secp256r1 : public Point<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
 {
-    using KeyPair::KeyPair;
+    using Point::Point;
 };
 
-class Point_secp256r1 : public Point<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
+class KeyPair_secp256r1 : public KeyPair<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
 {
-    using Point::Point;
+    using KeyPair::KeyPair;
 };
 
 class Curve_secp256r1 : public Curve<Curve_secp256r1, Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n>
diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index ab2e10f..a030e0b 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -59,7 +59,7 @@ template<typename Curve_XXX, typename Point_XXX, typename Field_XXX_p, typename
 struct KeyPair
 {
     mpz_class sk; 
-    Point<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n> pk;
+    Point_XXX pk;
 
     KeyPair(mpz_class s, Point_XXX P)
     {
@@ -679,7 +679,7 @@ Field_XXX_n
 >::generateKeyPair(void) const
 {
     mpz_class sk = Curve_XXX::rand.get_z_range(order);
-    Point pk = G * sk;
+    Point_XXX pk = G * sk;
     return KeyPair<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n>(sk,pk);
 }
 
diff --git a/includes/elgamal.hpp b/includes/elgamal.hpp
index b7975ff..ece6cce 100644
--- a/includes/elgamal.hpp
+++ b/includes/elgamal.hpp
@@ -41,7 +41,11 @@ public:
     ElGamal(){}
     ~ElGamal(){}
 
-    keypair_t keyGen() const {curve.generateKeyPair();}
+    keypair_t keyGen() const 
+    {
+        auto keys = curve.generateKeyPair();
+        return keypair_t{skey_t(keys.sk), keys.pk};
+    }
     
     ctxt_t encrypt(const pkey_t pkey, const POINT msg) const;
     ctxt_t encrypt(const pkey_t pkey, const mpz_class msg) {return encrypt(pkey, encode(msg));}
-- 
2.43.0


From a15cc153901798974f82728e55b57874f238a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 05/16] fix: CRC of short integers and heap overflow when
 appending

appendCRC wrote the checksum behind the exported buffer (and through a null
pointer for 0); validateCRC and removeCRC read before the buffer for values
of fewer than four bytes.
---
 includes/crc.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 68c257a..7b10639 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -51,6 +51,7 @@
 #include <stdint.h>
 #include <gmpxx.h>
 #include <iostream>
+#include <vector>
 #include "utilities.hpp"
 // #include <sys/systm.h>
 
@@ -770,9 +771,11 @@ const mpz_class appendCRC(mpz_class n)
 
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);
-    memcpy(res+len, &crc32c, 4);
+    std::vector<uint8_t> buf(res, res+len);
+    for (int i = 0; i < 4; i++)
+        buf.push_back((crc32c >> (8*i)) & 0xff);
 
-    mpz_class r = utils::setRawMpz(res, len+4);    
+    mpz_class r = utils::setRawMpz(buf.data(), buf.size());    
     return r;
 
 }
@@ -782,6 +785,10 @@ const bool validateCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
 
+    // shorter values are an empty message (whose CRC is 0) and its checksum
+    if (len < 4)
+        return n == 0;
+
     uint32_t value = 0;    
     value |= *(res + len -4) ;
     value |= *(res + len -3) << 8;
@@ -799,6 +806,9 @@ const mpz_class removeCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
     
+    if (len < 4)
+        return mpz_class(0);
+
     mpz_class r = utils::setRawMpz(res, len-4);    
     return r;
 
-- 
2.43.0


From 8251885b3abd6519767061d4fd9175c2f8ee55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 06/16] fix: take AES arguments in the declared order

encrypt and decrypt are declared as (key, text) but were defined as
(text, key), so calling them as declared encrypted the key under the text.
---
 src/utilities/aes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 570933a..85d8d7b 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -37,7 +37,7 @@ void AES::init()
     AES::iv = iv;
 }
 
-ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
+ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
@@ -88,7 +88,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     return utils::setRawMpz(ciphertext,ciphertext_len);
 }
 
-msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
+msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
@@ -145,13 +145,13 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
 {
     msg_t msg = appendCRC(plaintext);
-    return encrypt(msg, key);
+    return encrypt(key, msg);
 }
 
 msg_t AES::decryptCRC(const mpz_class key, const ctxt_t cipher) const
 {
     
-    msg_t m =  decrypt(cipher, key);
+    msg_t m =  decrypt(key, cipher);
     if(validateCRC(m))
     {
         m = removeCRC(m);
-- 
2.43.0


From 118270b06006668abefff9e66cd5d65b4070948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 07/16] fix: pad AES keys to 16 bytes

A key with leading zero bytes was exported to fewer than 16 bytes and OpenSSL
read the rest from behind the buffer (a null pointer for key 0).
---
 src/utilities/aes.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 85d8d7b..9a6bec8 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -3,6 +3,7 @@
 #include <openssl/aes.h>
 #include <openssl/err.h>
 #include <iostream>   
+#include <vector>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -27,6 +28,16 @@ void handleErrors(void)
 }
 
 
+// AES-128 key of an integer: 16 bytes big-endian, leading zero bytes included
+static std::vector<uint8_t> keyBytes(const mpz_class& key)
+{
+    uint8_t *raw;
+    size_t len = utils::getRawMpz(&raw, key);
+    std::vector<uint8_t> bytes(len < CRYPTO_KEYBYTES ? CRYPTO_KEYBYTES - len : 0, 0);
+    bytes.insert(bytes.end(), raw, raw + len);
+    return bytes;
+}
+
 void AES::init(const string iv)
 {
     AES::iv = iv;
@@ -43,16 +54,15 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     int len = 0, ciphertext_len = 0;
     unsigned char ciphertext[128];
     uint8_t *ptarr;
-    uint8_t *keyarr;
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    utils::getRawMpz(&keyarr, key);
+    std::vector<uint8_t> keyarr = keyBytes(key);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the encryption operation. */
-    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,(unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, keyarr.data(), (unsigned char*)AES::iv.c_str()))
         handleErrors();
 
     // /* Set IV length if default 12 bytes (96 bits) is not appropriate */
@@ -95,17 +105,16 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     // unsigned char plaintext[128];
     unsigned char plaintext[128];
     uint8_t *ctxtarr;
-    uint8_t *keyarr;
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
-    utils::getRawMpz(&keyarr, key);
+    std::vector<uint8_t> keyarr = keyBytes(key);
 
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the decryption operation. */
-    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, (unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, keyarr.data(), (unsigned char*)AES::iv.c_str()))
         handleErrors();
 
     // /* Set IV length. Not necessary if this is 12 bytes (96 bits) */
-- 
2.43.0


From 8c0dc3d1218f1b4ac236918ab5474ee0cd1b4b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 08/16] fix: keep leading zero bytes of AES ciphertexts, allow
 long messages

A ciphertext whose first byte was zero lost that byte when turned into an
integer and decrypted to garbage (1 in 256 encryptions, which also made honest
OPPRF runs fail); messages over 128 bytes overran the stack buffer.
---
 src/utilities/aes.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 9a6bec8..f0be3e9 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -52,10 +52,13 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
-    unsigned char ciphertext[128];
     uint8_t *ptarr;
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
+
+    // a leading 1 keeps the zero bytes a ciphertext may start with
+    std::vector<uint8_t> buf(1 + pt_len, 1);
+    unsigned char *ciphertext = buf.data() + 1;
     std::vector<uint8_t> keyarr = keyBytes(key);
 
     /* Create and initialise the context */
@@ -95,18 +98,24 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext,ciphertext_len);
+    return utils::setRawMpz(buf.data(), 1 + ciphertext_len);
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
-    // unsigned char plaintext[128];
-    unsigned char plaintext[128];
     uint8_t *ctxtarr;
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
+    if(ctxt_len == 0)
+        return msg_t(0);
+
+    // the first byte only marks the length
+    ctxtarr++;
+    ctxt_len--;
+    std::vector<uint8_t> buf(1 + ctxt_len);
+    unsigned char *plaintext = buf.data();
     std::vector<uint8_t> keyarr = keyBytes(key);
 
 
-- 
2.43.0


From b180d0320f765440a275043427c3921fc04a2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 09/16] fix: always use a full 16-byte AES counter

init() assigned the counter to itself, and a counter string shorter than 16
bytes let OpenSSL read whatever an earlier, longer one had left behind.
---
 src/utilities/aes.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index f0be3e9..ffffe76 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -12,7 +12,9 @@
 
 namespace aes
 {
-string AES::iv;
+static const size_t IV_BYTES = 16;
+
+string AES::iv = string(IV_BYTES, '\0');
 
 void handleErrors(void)
 {
@@ -41,11 +43,12 @@ static std::vector<uint8_t> keyBytes(const mpz_class& key)
 void AES::init(const string iv)
 {
     AES::iv = iv;
+    AES::iv.resize(IV_BYTES, '\0');
 }
 
 void AES::init()
 {
-    AES::iv = iv;
+    AES::iv = string(IV_BYTES, '\0');
 }
 
 ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From 7f00ac0a1383559afb73cd620c965456b009154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 10/16] fix: let PUDA aggregate sums up to 65535

The discrete logarithm search stopped before USHRT_MAX, so a sum of 65535 was
returned as 0.
---
 src/puda/puda.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 2239a25..03a0f44 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -19,7 +19,7 @@ Puda::~Puda()
 
 msg_t Puda::compute_dlog(POINT1 c)
 {
-    for(uint16_t i=0; i!=USHRT_MAX; i++)
+    for(uint32_t i=0; i<=USHRT_MAX; i++)
     {
         if (pp.g1 * mpz_class(i) == c)
             return i;
-- 
2.43.0


From e07c462aa115a4c6be62f05a7d4a6912be9c5ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 11/16] fix: draw Shamir coefficients from the whole field

Coefficients were taken from 0..99, so that fewer than threshold many shares
narrowed the secret down to a handful of values.
---
 src/shamirss/shamirss.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index b878c17..a9b207a 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -3,6 +3,8 @@
 
 namespace sss
 {
+static gmp_randclass rng(gmp_randinit_default);
+
 ShamirSS::ShamirSS()
 {
 
@@ -29,7 +31,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
     share_v_t shares;
     for (size_t i = 0; i < t-1; i++)
     {
-        coefs.push_back(FIELD((rand()+1) %100));
+        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));
     }
 
     for (size_t i = 1; i <= n; i++)
-- 
2.43.0


From eee1f2cc0505aff0d02161a1a917590d1c303560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 12/16] fix: copy the curve when copying an encryption instance

Copies of DME_DDH (and of the OT parties holding one) shared the owned curve
pointer, so destroying them freed it twice.
---
 includes/dme.hpp |  2 ++
 src/dme/dme.cpp  | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/includes/dme.hpp b/includes/dme.hpp
index 5bb7b75..e9e06b6 100644
--- a/includes/dme.hpp
+++ b/includes/dme.hpp
@@ -116,6 +116,8 @@ public:
     DME_DDH();
     DME_DDH(mode_t mu);
     DME_DDH(crs_ddh_t crs);
+    DME_DDH(const DME_DDH& d);
+    DME_DDH& operator=(const DME_DDH& d);
     ~DME_DDH();
     
     CURVE* getCurve(void) {return curve;}
diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index 257edac..f4dba51 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -184,6 +184,22 @@ DME_DDH::DME_DDH(crs_ddh_t crs)
 }
 
 
+DME_DDH::DME_DDH(const DME_DDH& d)
+{
+    *this = d;
+}
+
+DME_DDH& DME_DDH::operator=(const DME_DDH& d)
+{
+    mode = d.mode;
+    td_m = d.td_m;
+    td_d = d.td_d;
+    crs = d.crs;
+    crs.updateCurve(curve);
+    return *this;
+}
+
+
 DME_DDH::~DME_DDH()
 {
     if (curve)
-- 
2.43.0


From cc570dcf5abc37f3ade27f85f1593f7ab48764f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 13/16] fix: seed the random generators

Every generator started from GMP's default state, so each process drew the same
keys, and independent generators drew the same values as one another.
---
 includes/ecc_template.hpp   |  2 +-
 includes/utilities.hpp      | 12 ++++++++++++
 src/shamirss/shamirss.cpp   |  3 ++-
 src/utilities/utilities.cpp |  2 +-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index a030e0b..dc4ffa5 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -770,7 +770,7 @@ Curve_XXX,
 Point_XXX, 
 Field_XXX_p, 
 Field_XXX_n
->::rand(gmp_randinit_default);
+>::rand(utils::seededRandinit);
 
 } // namespace ecc
 
diff --git a/includes/utilities.hpp b/includes/utilities.hpp
index 2e4b141..c23cdf0 100644
--- a/includes/utilities.hpp
+++ b/includes/utilities.hpp
@@ -2,9 +2,21 @@
 #define __UTILS__
 
 #include <gmpxx.h>
+#include <random>
 
 namespace utils
 {
+// initialises a generator with an unpredictable seed, for gmp_randclass(seededRandinit)
+inline void seededRandinit(gmp_randstate_t state)
+{
+    std::random_device rd;
+    mpz_class seed;
+    for (int i = 0; i < 8; i++)
+        seed = (seed << 32) + rd();
+    gmp_randinit_default(state);
+    gmp_randseed(state, seed.get_mpz_t());
+}
+
 mpz_class getRandom(size_t bits);
 
 mpz_class setRawMpz(uint8_t* arr, size_t len);
diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index a9b207a..ee7b2e9 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -1,9 +1,10 @@
 #include "shamirss.hpp"
+#include "utilities.hpp"
 
 
 namespace sss
 {
-static gmp_randclass rng(gmp_randinit_default);
+static gmp_randclass rng(utils::seededRandinit);
 
 ShamirSS::ShamirSS()
 {
diff --git a/src/utilities/utilities.cpp b/src/utilities/utilities.cpp
index ba7d821..6ccc79f 100644
--- a/src/utilities/utilities.cpp
+++ b/src/utilities/utilities.cpp
@@ -5,7 +5,7 @@
 
 namespace utils
 {
-static gmp_randclass rand = gmp_randclass(gmp_randinit_default);
+static gmp_randclass rand(seededRandinit);
 
 mpz_class getRandom(size_t bits)
 {
-- 
2.43.0


From ac90cbe608797197d1d1e9719aebe5a5f098814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 14/16] fix: shuffle OPPRF messages unpredictably

random_shuffle draws from rand(), which is never seeded: the order of the
messages was the same in every process and revealed the comparison.
---
 src/opprf/opprf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index 9fcf203..7ee341d 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -1,4 +1,6 @@
+#include <algorithm>
 #include <bitset>
+#include <random>
 
 #include "opprf.hpp"
 #include "utilities.hpp"
@@ -106,7 +108,7 @@ ot_ctxts_t OPPRFserver::runOTRound(short round, dme::pkey_t pk)
         c.ctxt[0] = ots.encMsgs(pk, Si0[round].k_lt, Si1[round].k_lt);
         c.ctxt[1] = ots.encMsgs(pk, Si0[round].k_eq, Si1[round].k_eq);
         c.ctxt[2] = ots.encMsgs(pk, Si0[round].k_gt, Si1[round].k_gt);
-        std::random_shuffle(c.ctxt.begin(), c.ctxt.end());
+        std::shuffle(c.ctxt.begin(), c.ctxt.end(), std::random_device());
 
         c.cprf = ots.encMsgs(pk, Si0[round].prf, Si1[round].prf);
     }
@@ -129,7 +131,7 @@ symctxt_t OPPRFserver::sendEncryptedMasks()
     c[0] = aes.encryptCRC(k_lt[0], mask.getEncodedX());
     c[1] = aes.encryptCRC(k_eq[0], mask.getEncodedX());
     c[2] = aes.encryptCRC(k_gt[0], curve->getRandomPoint().getEncodedX());
-    std::random_shuffle(c.begin(), c.end());
+    std::shuffle(c.begin(), c.end(), std::random_device());
  
     return c;
 }
-- 
2.43.0


From 6d3431242f188176cb7a24dcb95e660c0ff456c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 15/16] fix: generator of a copied curve refers to the copy

---
 includes/ecc_template.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index dc4ffa5..fa553cd 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -88,6 +88,20 @@ class Curve
     
     public:
 
+        Curve() {}
+        Curve(const Curve& c) { *this = c; }
+        Curve& operator=(const Curve& c)
+        {
+            prime = c.prime;
+            a = c.a;
+            b = c.b;
+            G = c.G;
+            G.curve = static_cast<Curve_XXX*>(this);
+            order = c.order;
+            cofactor = c.cofactor;
+            return *this;
+        }
+
         template<typename T1, typename T2, typename T3, typename T4>
         friend bool operator==(const Curve<T1,T2,T3,T4>& curve, const Curve<T1,T2,T3,T4>& c);
         template<typename T1, typename T2, typename T3, typename T4>
-- 
2.43.0


From ac6c34a71413498c666113f9429f0b9e511feef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 16/16] fix: compare the point (0,0) with the point at infinity

---
 includes/ecc_template.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index fa553cd..0c23bad 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -527,10 +527,10 @@ Field_XXX_p,
 Field_XXX_n
 >::operator== (const Point_XXX& P) const
 {
-    if(is_inf == true && P.is_inf == true)
-        return true;
+    if(is_inf || P.is_inf)
+        return is_inf == P.is_inf;
     
-    return x == P.x && y == P.y && *curve == *P.curve && is_inf == P.is_inf;
+    return x == P.x && y == P.y && *curve == *P.curve;
 }
 
 template<
-- 
2.43.0

