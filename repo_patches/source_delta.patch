From 967317be32cdb898012fd01bc0f43c87e3bee09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 01/18] fix: split the identity (i=) at its last @, a quoted
 local-part may contain one

---
 src/Signature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index fed6983..79cc31f 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -221,7 +221,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		} else {
 			std::string mail = QuotedPrintable::Decode(i.GetValue());
 
-			size_t mailsep = mail.find('@');
+			size_t mailsep = mail.rfind('@');
 			if (mailsep == std::string::npos)
 				throw DKIM::PermanentError("Missing a local-part (i)");
 
-- 
2.43.0


From 411165aac8471652189f98e8b0352405d0f5f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 02/18] fix: do not add a second i= tag (identity) to ARC
 signatures

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 9e59350..452f247 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -171,7 +171,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
 		std::string identity;
-		if (!options.GetIdentity().empty())
+		if (!arcInstance && !options.GetIdentity().empty())
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
 
 		dkimHeader += "\td=" + signature.GetDomain() + "; s=" + signature.GetSelector() + identity + limit + ";\r\n";
-- 
2.43.0


From 4ff2b0e3ae94974035b35aac3513bc42334ce2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 03/18] fix: sign the existing fields of oversigned names

---
 src/Signatory.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 452f247..89a010c 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -114,6 +114,14 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	bool signAll = false;
 	if (headersToSign.empty()) signAll = true;
 
+	// existing fields of an oversigned name must be signed as well
+	auto oversign = options.GetOversignHeaders();
+	for (auto & i : oversign)
+	{
+		transform(i.begin(), i.end(), i.begin(), tolower);
+		headersToSign.insert(i);
+	}
+
 	// add all headers to our cache (they will be pop of the end)
 	const auto & headers = m_msg.GetHeaders();
 	for (auto h = headers.rbegin(); h != headers.rend(); ++h)
@@ -132,9 +140,6 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			}
 		}
 	}
-	auto oversign = options.GetOversignHeaders();
-	for (auto & i : oversign)
-		transform(i.begin(), i.end(), i.begin(), tolower);
 	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());
 
 	std::string dkimHeaders;
-- 
2.43.0


From 94c2b77e5695d1434f2d4417f03a8d2f6535f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 04/18] fix: do not put field names into h= which would break
 the tag list

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 89a010c..88e7f99 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -132,6 +132,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		{
 			if (!signAll && headersToSign.find(name) == headersToSign.end())
 				continue;
+			// a name which is not valid in h= can not be signed
+			if (std::find_if(name.begin(), name.end(), [](char c) { return c < 0x21 || c > 0x7e || c == ';'; }) != name.end())
+				continue;
 			std::string tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + "\r\n";
 			if (!tmp.empty())
 			{
-- 
2.43.0


From 94493a806e8ec6535abe545f94f2a5317e4a5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 05/18] fix: remove the white space around the b= value before
 hashing the signature field

---
 src/Validatory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5181e58..1997e03 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -243,7 +243,11 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	DKIM::TagListEntry bTag;
 	sig.GetTag("b", bTag);
-	v.erase((int)bTag.GetValueOffset(), bTag.GetValue().size());
+
+	// the value is removed including all surrounding whitespace
+	size_t bBegin = v.find_last_not_of(" \t\r\n", bTag.GetValueOffset() - 1) + 1;
+	size_t bEnd = v.find_first_not_of(" \t\r\n", bTag.GetValueOffset() + bTag.GetValue().size());
+	v.erase(bBegin, bEnd == std::string::npos ? bEnd : bEnd - bBegin);
 
 	std::string tmp = canonicalhead.FilterHeader(h + v);
 #ifdef DEBUG
-- 
2.43.0


From 7c3e0e98481da463d291be9ef44dad81c5fb9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:29 +0000
Subject: [PATCH 06/18] fix: check the size of Ed25519 signatures and keys
 before handing them to libsodium

---
 src/Signatory.cpp  | 3 +++
 src/Validatory.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 88e7f99..639d2e2 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -244,6 +244,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				if (signature.GetED25519PrivateKey().size() != crypto_sign_SECRETKEYBYTES)
+					throw DKIM::PermanentError("No ED25519 key provided");
+
 				unsigned char sig[crypto_sign_BYTES];
 				if (crypto_sign_detached(sig,
 							nullptr,
diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 1997e03..7cc8b83 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -275,6 +275,9 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 		}
 		break;
 		case DKIM::DKIM_SA_ED25519:
+			if (sig.GetSignatureData().size() != crypto_sign_BYTES ||
+					pub.GetED25519PublicKey().size() != crypto_sign_PUBLICKEYBYTES)
+				throw DKIM::PermanentError("Signature did not verify", AR_FAIL);
 			if (crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
 						md,
 						md_len,
-- 
2.43.0


From 558a56d774eeacdfd8021bfcd7bc4ef0875318f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 07/18] fix: read numeric signature tags as exact decimals,
 independent of errno

---
 src/Signature.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 79cc31f..cb32bf0 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -36,6 +36,15 @@ using DKIM::Conversion::Base64_Decode;
 using DKIM::Conversion::QuotedPrintable;
 using DKIM::Util::StringFormat;
 
+// decimal digits only, a number out of range gives ULONG_MAX
+static bool ParseNumber(const std::string& value, unsigned long& number)
+{
+	if (value.empty() || value.find_first_not_of("0123456789") != std::string::npos)
+		return false;
+	number = strtoul(value.c_str(), nullptr, 10);
+	return true;
+}
+
 void Signature::Reset()
 {
 	m_tagList.Reset();
@@ -207,7 +216,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		TagListEntry i;
 		if (!m_tagList.GetTag("i", i))
 			throw DKIM::PermanentError("Missing ARC instance (i)");
-		m_arcInstance = strtoul(i.GetValue().c_str(), nullptr, 10);
+		if (!ParseNumber(i.GetValue(), m_arcInstance))
+			throw DKIM::PermanentError("Invalid ARC instance; failed numeric parsing (i)");
 		if (m_arcInstance < 1 || m_arcInstance > 50)
 			throw DKIM::PermanentError("ARC instance (i) out of range 1-50");
 	}
@@ -252,14 +262,11 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		if (l.GetValue().size() > 76)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
 
-		char* ptr;
-		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
-		if (errno == ERANGE)
-			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size of unsigned long (l)");
-		if ((signed long)bs < 0)
-			throw DKIM::PermanentError("Invalid body signed length; must be a positive number (l)");
-		if (*ptr != '\0')
+		unsigned long bs;
+		if (!ParseNumber(l.GetValue(), bs))
 			throw DKIM::PermanentError("Invalid body signed length; failed numeric parsing (l)");
+		if ((signed long)bs < 0)
+			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size (l)");
 		m_bodySize = bs;
 		m_bodySizeLimit = true;
 	}
@@ -292,7 +299,10 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	TagListEntry x;
 	if (m_tagList.GetTag("x", x))
 	{
-		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))
+		unsigned long expiration;
+		if (!ParseNumber(x.GetValue(), expiration))
+			throw DKIM::PermanentError("Invalid signature expiration; failed numeric parsing (x)");
+		if ((signed long)expiration >= 0 && (time_t)expiration < time(nullptr))
 			throw DKIM::PermanentError("Signature has expired (x)");
 	}
 
-- 
2.43.0


From 31a3aaf3ed45f592c550d1393dbb82afe00d96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 08/18] fix: do not accept keys restricted to unsupported
 hashes or services as unrestricted

---
 src/PublicKey.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 96af961..757de22 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -85,6 +85,9 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "sha1")
 				m_digestAlgorithms.push_back(DKIM_A_SHA1);
 		}
+		// an empty list would permit every algorithm
+		if (m_digestAlgorithms.empty())
+			throw DKIM::PermanentError("No supported hash algorithm (h)");
 	}
 
 	// Key type
@@ -155,18 +158,25 @@ void PublicKey::Parse(const std::string& signature)
 		if (s.GetValue().empty())
 			throw DKIM::PermanentError("Service type is empty (s)");
 
+		bool supported = false;
 		std::list<std::string> type = DKIM::Tokenizer::ValueList(s.GetValue());
 		for (std::list<std::string>::const_iterator a = type.begin();
 				a != type.end(); ++a)
 		{
 			if (*a == "email")
+			{
 				m_serviceType.push_back(DKIM_S_EMAIL);
+				supported = true;
+			}
 			else if (*a == "*")
 			{
 				m_serviceType.clear();
+				supported = true;
 				break;
 			}
 		}
+		if (!supported)
+			throw DKIM::PermanentError("Key is not intended for e-mail (s)");
 	}
 
 	// Flags
-- 
2.43.0


From 502d9837a9cad2233988e103d9c69470f07cead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 09/18] fix: address lists: 0xff in quoted strings and adjacent
 quoted-pairs in comments

---
 src/Tokenizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 9aea7d7..ccde972 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -198,7 +198,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			while (true)
 			{
-				char c = (char)data.get();
+				int c = data.get();
 
 				if (c == EOF) {
 					throw DKIM::PermanentError("unclosed string");
@@ -212,7 +212,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 				} else if (c == '"') {
 					break;
 				} else {
-					token += c;
+					token += (char)c;
 				}
 			}
 			return TOK_QUOTED;
@@ -235,6 +235,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 					//if (data.peek() != ')' && data.peek() != '(')
 					//	throw DKIM::PermanentError("unclosed comment");
 					token += (char)data.get();
+					continue;
 				}
 				if (data.peek() == '(')
 					++depth;
-- 
2.43.0


From 86132204e026313cb7c43ac462406abebbcf124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 10/18] fix: name each signature's own algorithm in a=

---
 src/Signatory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 639d2e2..c25b3ef 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -152,10 +152,10 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
 		if (arcInstance)
-			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 		else
-			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 
 		time_t timestamp = -1;
-- 
2.43.0


From 36b5c2e03c90337d7e14c4dac53fea2d20c53a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 11/18] fix: parse the message only once when signing
 repeatedly

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index c25b3ef..5d1f6af 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -54,7 +54,7 @@ Signatory::~Signatory()
 
 std::string Signatory::CreateSignature(const SignatoryOptions& options)
 {
-	while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }
+	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
-- 
2.43.0


From 338ed654481f31ec4395a57fdc3ad3a01df70495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 12/18] fix: release a replaced RSA key and own every key the
 library loaded

---
 src/SignatoryOptions.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index a07ef08..cf9463e 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -115,7 +115,7 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				*m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -124,9 +124,10 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				*m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!*m_privateKeyRSA)
+				RSA* privateKey = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!privateKey)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				SetRSAPrivateKey(privateKey, true);
 			}
 		}
 		break;
@@ -161,6 +162,8 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 SignatoryOptions& SignatoryOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (*m_privateKeyRSAFree && *m_privateKeyRSA != privatekey)
+		RSA_free(*m_privateKeyRSA);
 	*m_privateKeyRSA = privatekey;
 	*m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -288,6 +291,8 @@ AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 
 AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (m_privateKeyRSAFree && m_privateKeyRSA != privatekey)
+		RSA_free(m_privateKeyRSA);
 	m_privateKeyRSA = privatekey;
 	m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -345,7 +350,7 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -354,9 +359,10 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!m_privateKeyRSA)
+				RSA* privateKey = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!privateKey)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				SetRSAPrivateKey(privateKey, true);
 			}
 		}
 		break;
-- 
2.43.0


From b29b4d600dc5891fa7850e32639cd4c4de99a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 13/18] fix: do not leak the digest context when the signature
 field can not be canonicalized

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 5d1f6af..d5539d9 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -201,9 +201,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		dkimHeader += "\tbh=" + Base64_Encode(bh) + ";\r\n";
 		dkimHeader += "\tb=";
 
+		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_MD_CTX* evpmdhead2 = EVP_MD_CTX_new();
 		EVP_MD_CTX_copy(evpmdhead2, evpmdhead.get());
-		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_DigestUpdate(evpmdhead2, tmp2.c_str(), tmp2.size());
 		EVP_DigestFinal_ex(evpmdhead2, md, &md_len);
 		EVP_MD_CTX_free(evpmdhead2);
-- 
2.43.0


From 51a9507dcc1005aea45f756eb19c5477ddfbd253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 14/18] fix: the --arcinstance option takes an argument

---
 tools/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index d83a2f7..5cec2d7 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -71,7 +71,7 @@ int main(int argc, char* argv[])
 	// longopts
 	static struct option longopts[] = {
 		{ "arc",	 	no_argument,		nullptr,		'a'	},
-		{ "arcinstance",no_argument,		nullptr,		'A'	},
+		{ "arcinstance",required_argument,	nullptr,		'A'	},
 		{ "help",		no_argument,		nullptr,		'h'	},
 		{ "validate",	no_argument,		nullptr,		'v'	},
 		{ "selector",	required_argument,	nullptr,		's'	},
-- 
2.43.0


From 6d00709aff1ca48ad8a65c88f0061868e4c20bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 15/18] fix: accept the documented --keytype option

---
 tools/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 5cec2d7..2f49cdd 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -78,6 +78,7 @@ int main(int argc, char* argv[])
 		{ "domain",		required_argument,	nullptr,		'd'	},
 		{ "keyfile",	required_argument,	nullptr,		'k'	},
 		{ "keyformat",	required_argument,	nullptr,		'K'	},
+		{ "keytype",	required_argument,	nullptr,		'K'	},
 		{ nullptr,			0,					nullptr,		0	}
 	};
 
-- 
2.43.0


From 6bda094e2b3dbf8d15ce6cc608e6646f111f8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 16/18] fix: the signature being verified is not among its
 signed headers

A h= tag which names DKIM-Signature (or ARC-Message-Signature) more often than
other fields of that name occur made the verifier hash the signature header
itself, b= included, so a signature with that name oversigned never verified.
RFC 6376 3.5: h= must not include the field that is being verified.
---
 src/Validatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 7cc8b83..863d28e 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -209,6 +209,9 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	std::map<std::string, Message::HeaderList> headerCache;
 	for (const auto & hIter : m_msg.GetHeaders())
 	{
+		// the signature being verified is never among the signed headers (rfc6376 3.5)
+		if (hIter == header)
+			continue;
 		std::string headerName = hIter->GetName();
 		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
 		headerCache[headerName].push_back(hIter);
-- 
2.43.0


From e96da06af5c9da21f48b302a752476183f44c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 17/18] fix: accept a list of query methods that contains
 dns/txt (q=)

---
 src/Signature.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index cb32bf0..917d014 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -275,7 +275,9 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	TagListEntry q;
 	if (m_tagList.GetTag("q", q))
 	{
-		if (q.GetValue() == "dns/txt")
+		// unrecognized query methods are ignored (rfc6376 3.5)
+		std::list<std::string> methods = DKIM::Tokenizer::ValueList(q.GetValue());
+		if (find(methods.begin(), methods.end(), "dns/txt") != methods.end())
 			m_queryType = DKIM_Q_DNSTXT;
 		else
 			throw DKIM::PermanentError(StringFormat("Unsupported query method %s (q supports dns/txt)",
-- 
2.43.0


From c71bd7701dcc618571972e9ab566fdd42808fa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 18/18] fix: refuse oversigned names which can not stand in h=

---
 src/SignatoryOptions.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index cf9463e..156f9c8 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -21,6 +21,7 @@
 #include "SignatoryOptions.hpp"
 #include "Util.hpp"
 #include <sodium.h>
+#include <algorithm>
 
 using DKIM::SignatoryOptions;
 using DKIM::AdditionalSignaturesOptions;
@@ -220,6 +221,13 @@ SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& hea
 
 SignatoryOptions& SignatoryOptions::SetOversignHeaders(const std::list<std::string>& headers)
 {
+	// these names are added to the signature (h=) as they are
+	for (const auto & name : headers)
+	{
+		if (name.empty() || std::find_if(name.begin(), name.end(), [](char c) { return c < 0x21 || c > 0x7e || c == ':' || c == ';'; }) != name.end())
+			throw DKIM::PermanentError("Invalid header name (h=)");
+	}
+
 	m_oversignheaders = headers;
 	return *this;
 }
-- 
2.43.0

