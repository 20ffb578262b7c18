From 7d16e863638c618b56088589bf3e16ebcb981bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 01/70] fix: base64 encoding no longer reads from empty buffers

---
 src/Base64.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 99ccc50..85bc759 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -15,13 +15,10 @@ namespace libvariant {
 	public:
 		iov_iterator() : iov(0), len(0), slab(0), offset(0) {}
 		iov_iterator(const iov_iterator &o) : iov(o.iov), len(o.len), slab(o.slab), offset(o.offset) {}
-		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) {}
+		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) { skip_done(); }
 		iov_iterator &operator++() {
 			++offset;
-			if (offset >= iov[slab].iov_len) {
-				++slab;
-				offset = 0;
-			}
+			skip_done();
 			return *this;
 		}
 		iov_iterator operator++(int) {
@@ -46,6 +43,14 @@ namespace libvariant {
 		}
 
 	private:
+		// Move past consumed and empty buffers
+		void skip_done() {
+			while (slab < len && offset >= iov[slab].iov_len) {
+				++slab;
+				offset = 0;
+			}
+		}
+
 		const struct iovec *iov;
 		unsigned len;
 		unsigned slab;
-- 
2.43.0


From 4b8eadc8803363db542926dfb03c0a72db39ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 02/70] fix: base64 decoding table lookup off by one for '{'

---
 src/Base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 85bc759..0ef9e65 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -133,7 +133,7 @@ namespace libvariant {
 		do {\
 			if (i == e) { return o - (signed char*)outptr; }\
 			signed char val = *i++ - 43;\
-			if (val < 0 || val > decoding_size) { fragment = -1; }\
+			if (val < 0 || val >= decoding_size) { fragment = -1; }\
 			else { fragment = decoding[(int)val]; }\
 		} while (fragment < 0)
 
-- 
2.43.0


From c04a4454a91e2d712b3d7d2a0a8f6af96b0ac551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:23 +0000
Subject: [PATCH 03/70] fix: blob comparison no longer treats a prefix as equal

---
 src/Blob.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Blob.cc b/src/Blob.cc
index 3e12d55..f2b179e 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -116,7 +116,10 @@ namespace libvariant {
 				++j;
 			}
 		}
-		return 0;
+		// One is a prefix of the other, the shorter one is less.
+		unsigned our_len = GetTotalLength(), oth_len = other->GetTotalLength();
+		if (our_len == oth_len) { return 0; }
+		return our_len < oth_len ? -1 : 1;
 	}
 }
 
-- 
2.43.0


From e6ce2ef7d4625041ede6c4db5c208b6e45ad95e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:30 +0000
Subject: [PATCH 04/70] fix: clearing a string no longer clears other values
 assigned from it

Strings share their storage after assignment.  Clear() emptied that
storage in place, so every other value sharing it became empty too.
---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9afe852..9df8ef0 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1064,7 +1064,7 @@ namespace libvariant {
 
 		bool String::Empty(const Data *that) const { return that->s->empty(); }
 
-		void String::Clear(Data *that) const { return that->s->clear(); }
+		void String::Clear(Data *that) const { StringInit(that, ""); }
 
 		int String::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
-- 
2.43.0


From 0fd389023b24b5bd83e28550a1bfa6b7412e9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:30 +0000
Subject: [PATCH 05/70] fix: Size() of a blob value without a blob no longer
 dereferences null

A Variant constructed as BlobType holds no blob yet.
---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9df8ef0..dd11464 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1398,7 +1398,7 @@ namespace libvariant {
 		{ return *(that->blob); }
 
 		unsigned Blob::Size(const Data *that) const
-		{ return (*that->blob)->GetTotalLength(); }
+		{ return (*that->blob) ? (*that->blob)->GetTotalLength() : 0; }
 
 		int Blob::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
-- 
2.43.0


From afb5261c8a61bd3014165ca2e99947e1ae71316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:34 +0000
Subject: [PATCH 06/70] fix: reject JSON literals cut short by a comment

'[tru/**/]' was accepted as true because the states before the last
letter of true, false and null allowed a comment to end the literal.
---
 lib/json/JSON_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 393b3fc..0772dd0 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -272,14 +272,14 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*tr     T1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T2,__,__,__,__,__,__,__},
 /*tru    T2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T3,__,__,__,__},
-/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*fa     F1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F2,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*fal    F2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F3,__,__,__,__,__,__,__,__,__},
 /*fals   F3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F4,__,__,__,__,__,__},
-/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*nu     N1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N2,__,__,__,__},
 /*nul    N2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N3,__,__,__,__,__,__,__,__,__},
-/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
+/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
 /*/      C1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,C2},
 /*/*     C2*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
 /**      C3*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,CE,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
-- 
2.43.0


From cdfe44b804f00d1abb7c2271be895880e9767562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:34 +0000
Subject: [PATCH 07/70] fix: accept JSON numbers with an exponent after a zero

0e5 and -0E1 are valid JSON numbers but were rejected.
---
 lib/json/JSON_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 0772dd0..3615533 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -264,7 +264,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*u3     U3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,U4,U4,U4,U4,U4,U4,U4,U4,__,__,__,__,__,__,U4,U4,__,__},
 /*u4     U4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,UC,UC,UC,UC,UC,UC,UC,UC,__,__,__,__,__,__,UC,UC,__,__},
 /*minus  MI*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,ZE,IT,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*int    IT*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,IT,IT,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-- 
2.43.0


From 05071a02142448350fc9dc4362c5687eb9670b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:34 +0000
Subject: [PATCH 08/70] fix: accept a comment directly after a JSON exponent

Comments are allowed after every other form of number.
---
 lib/json/JSON_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 3615533..0b395c5 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -269,7 +269,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*ex     E2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*tr     T1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T2,__,__,__,__,__,__,__},
 /*tru    T2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T3,__,__,__,__},
 /*true   T3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
-- 
2.43.0


From e348375ab36df11c336db131142a9ca31e5a8e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:34 +0000
Subject: [PATCH 09/70] fix: JSON parser reports bytes it cannot accept before
 the document

Rejected leading bytes were skipped but stayed in the parse buffer.  The
first number of the document was then read together with them, so '5[1]'
gave 51 and 'x[1]' an uninitialised value.
---
 src/JSONParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 9d385a8..2e48a8b 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -155,7 +155,7 @@ namespace libvariant {
 							else { status = S_ERROR; }
 						}
 					}
-				} else if (status == S_OK) { status = S_ERROR; }
+				} else { status = S_ERROR; }
 				++c;
 			}
 			input->Release(c - ptr);
-- 
2.43.0


From 479ebc9bc7347f1354177f587d26f23dd1d7cde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:34 +0000
Subject: [PATCH 10/70] fix: JSON floats always have a digit after the decimal
 point

A value with as many integer digits as the precision, for example
12345678901234567.0, was written as '12345678901234568.'.
---
 src/JSONEmitter.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 9389e32..048b71a 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -132,7 +132,13 @@ namespace libvariant {
 		} else {
 			oss << std::setprecision(numeric_precision) << std::showpoint << v;
 		}
-		EmitRaw(oss.str().c_str(), oss.str().length());
+		std::string text = oss.str();
+		// JSON requires at least one digit after the decimal point.
+		std::string::size_type dot = text.find('.');
+		if (dot != std::string::npos && (dot + 1 == text.size() || text[dot + 1] == 'e')) {
+			text.insert(dot + 1, "0");
+		}
+		EmitRaw(text.c_str(), text.length());
 	}
 
 	void JSONEmitterImpl::Emit(ConstBlobPtr b) {
-- 
2.43.0


From 47200815468a4ad31685476da613e803bd370659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:34 +0000
Subject: [PATCH 11/70] fix: memory output without a length pointer starts at
 offset zero

The internal counter was not initialised, and the check for enough space
could overflow.
---
 src/EmitterOutput.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5645c9d..eca13b4 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -80,7 +80,7 @@ namespace libvariant {
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-		: data_ptr(ptr), length(len), out_length(out_len)
+		: data_ptr(ptr), length(len), out_length_dummy(0), out_length(out_len)
    	{
 		if (0 == out_length) {
 			out_length = &out_length_dummy;
@@ -88,7 +88,7 @@ namespace libvariant {
 	}
 
 	unsigned EmitterMemoryOutput::Write(const void *ptr, unsigned len) {
-		if (*out_length + len > length) {
+		if (*out_length > length || len > length - *out_length) {
 			throw std::length_error("Emitter memory output buffer to small.");
 		}
 		memcpy(((char*)data_ptr + *out_length), ptr, len);
-- 
2.43.0


From 572d2f5d5efeccc027ccb36c1b27c10290897b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:34 +0000
Subject: [PATCH 12/70] fix: emitter outputs report a failed write

When nothing could be written, for example because the disk was full,
the emitters retried for ever.
---
 src/EmitterOutput.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index eca13b4..2e458ca 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -40,6 +40,9 @@ namespace libvariant {
 
 	unsigned EmitterFileOutput::Write(const void *ptr, unsigned len) {
 		unsigned num = fwrite(ptr, 1, len, file);
+		if (num == 0 && len > 0) {
+			throw std::runtime_error("Error writing to file.");
+		}
 		num_bytes += num;
 		return num;
 	}
@@ -71,6 +74,9 @@ namespace libvariant {
 
 	unsigned EmitterStreambufOutput::Write(const void *ptr, unsigned len) {
 		unsigned num = streambuf->sputn((const char*)ptr, len);
+		if (num == 0 && len > 0) {
+			throw std::runtime_error("Error writing to stream buffer.");
+		}
 		num_bytes += num;
 		return num;
 	}
-- 
2.43.0


From 342bcae3a1999dbeb898b7ca94bc0f95b642e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:34 +0000
Subject: [PATCH 13/70] fix: JSON emitter destructor no longer throws

An output that fails while the emitter is being destroyed, often right
after it failed for the first time, ended the process.
---
 src/JSONEmitter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 048b71a..06bb1d3 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -52,7 +52,8 @@ namespace libvariant {
 	}
 
 	JSONEmitterImpl::~JSONEmitterImpl() {
-		Close();
+		// A destructor must not throw, call Close to see the error.
+		try { Close(); } catch (...) {}
 	}
 
 	void JSONEmitterImpl::BeginDocument() {
-- 
2.43.0


From fe2d779eefe0bdba6be2435a962b5e9f57dc4b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:48 +0000
Subject: [PATCH 14/70] fix: do not let the bundle header emitter throw from
 its destructor

---
 src/BundleHdrEmitter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index d7db891..0cdddfc 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -22,7 +22,8 @@ namespace libvariant {
 
 
 	BundleHdrEmitterImpl::~BundleHdrEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (...) {}
 	}
 
 
-- 
2.43.0


From 5ed2a44243e0f73cbb98009468b9036e1f55d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:48 +0000
Subject: [PATCH 15/70] fix: write everything and keep exceptions out of
 libxml2 in the XML emitter callbacks

An output that accepted only part of the data lost the rest, and an output
that threw unwound through C code and out of the emitter's destructor.
---
 src/XMLPLISTEmitter.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 015b6ed..b08ad02 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -31,12 +31,22 @@ namespace libvariant {
 
 	int XMLPLISTEmitterImpl::DoWrite(void *ctx, const char *buffer, int len) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		return impl->output->Write(buffer, len);
+		// Called from C code, so exceptions must not escape.
+		try {
+			int written = 0;
+			while (written < len) {
+				written += impl->output->Write(buffer + written, len - written);
+			}
+		} catch (...) {
+			return -1;
+		}
+		return len;
 	}
 
 	int XMLPLISTEmitterImpl::DoClose(void *ctx) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		impl->output->Flush();
+		try { impl->output->Flush(); }
+		catch (...) { return -1; }
 		return 0;
 	}
 
-- 
2.43.0


From 1d056df22c44019ae973c7b558d43e18800972cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:48 +0000
Subject: [PATCH 16/70] fix: write everything and keep exceptions out of
 libyaml in the YAML emitter

The write callback returned the number of bytes where libyaml expects a
success flag, so a short write lost data. Exceptions from the output passed
through C code and could leave the destructor, and the libyaml emitter leaked
when closing failed.
---
 src/YAMLEmitter.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index ecbe8c4..6f7bb26 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -31,7 +31,18 @@ namespace libvariant {
 
 	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
 		EmitterOutput *out = (EmitterOutput*)data;
-		return out->Write((const void*)buffer, size);
+		// Called from C code, so exceptions must not escape. libyaml wants 1
+		// when everything was written and 0 on error.
+		try {
+			while (size > 0) {
+				unsigned num = out->Write((const void*)buffer, size);
+				buffer += num;
+				size -= num;
+			}
+		} catch (...) {
+			return 0;
+		}
+		return 1;
 	}
 
 	static const char *param_keys[] = { "scalar_style", "map_style", "list_style",
@@ -196,7 +207,10 @@ namespace libvariant {
 
 	YAMLEmitterImpl::~YAMLEmitterImpl() {
 		try { Close(); }
-		catch (const std::runtime_error &) {}
+		catch (...) {}
+		if (!closed) {
+			yaml_emitter_delete(&emitter);
+		}
 	}
 
 	void YAMLEmitterImpl::BeginDocument() {
-- 
2.43.0


From 5d52d1056f5f55c44c990e266c0787c75e6d61b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:48 +0000
Subject: [PATCH 17/70] fix: report data lost because the output could not be
 flushed

Serializing to a file on a full device succeeded silently: the bytes were
buffered by stdio and the result of the flush was ignored. The YAML emitter
did not flush its output at all.
---
 src/EmitterOutput.cc | 8 ++++++--
 src/YAMLEmitter.cc   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 2e458ca..f47c487 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -48,7 +48,9 @@ namespace libvariant {
 	}
 
 	void EmitterFileOutput::Flush() {
-	   	fflush(file);
+	   	if (fflush(file) != 0) {
+			throw std::runtime_error("Error flushing file.");
+		}
    	}
 
 	EmitterFilenameOutput::EmitterFilenameOutput(const char *filename, const char *mode)
@@ -82,7 +84,9 @@ namespace libvariant {
 	}
 
 	void EmitterStreambufOutput::Flush() {
-	   	streambuf->pubsync();
+	   	if (streambuf->pubsync() == -1) {
+			throw std::runtime_error("Error flushing stream buffer.");
+		}
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 6f7bb26..868d877 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -373,6 +373,7 @@ namespace libvariant {
 		if (yaml_emitter_flush(&emitter) == 0) {
 			throw std::runtime_error(emitter.problem);
 		}
+		out->Flush();
 	}
 
 	void YAMLEmitterImpl::Close() {
-- 
2.43.0


From 8e69831d3c8678c90f523e4372ffaf4c9638125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:27 +0000
Subject: [PATCH 18/70] fix: always write the null byte between header and
 payload

The terminator was dropped when the output accepted exactly the padding in
one call.
---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 4787b82..cdadd51 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -175,7 +175,7 @@ namespace libvariant {
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
 		unsigned written = 0;
-		while (written < num) {
+		while (written < buf.size()) {
 			written += out->Write(&buf[written], buf.size() - written);
 		}
 
-- 
2.43.0


From 6b1c3ab8fe8ed6cdb445e8390b3e1058401465c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:27 +0000
Subject: [PATCH 19/70] fix: payload length stored in a list element

The comparison was inverted: an existing element made the emitter append
nulls without end and a missing element was never added.
---
 src/Payload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index cdadd51..2d86971 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -75,8 +75,8 @@ namespace libvariant {
 					   	(on_data ? data_i + 1 : data_i), on_data,
 					   	state);
 			}
-			if (on_len_path && len_i->AsUnsigned() < index) {
-				while (len_i->AsUnsigned() < index) {
+			if (on_len_path && index <= len_i->AsUnsigned()) {
+				while (index < len_i->AsUnsigned()) {
 					state.e.EmitNull();
 					++index;
 				}
-- 
2.43.0


From 3f4d5ec250967bb562da3765085caffee1b66d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:27 +0000
Subject: [PATCH 20/70] fix: do not read past the end of the input looking for
 the end of the header

---
 src/Payload.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 2d86971..8a03f03 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -215,9 +215,8 @@ namespace libvariant {
 		const void *retptr = base_input->GetPtr(len);
 		if (retptr) {
 			const char *ptr = (const char*)retptr;
-			if (ptr[scanned_to] != '\0') {
+			if (scanned_to < len) {
 				scanned_to += strnlen(&ptr[scanned_to], len-scanned_to);
-
 			}
 			len = std::min(len, scanned_to);
 		}
-- 
2.43.0


From 95a05b184ef96eb364398182a2dae00ee2472273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:46 +0000
Subject: [PATCH 21/70] fix: guessing the format of blank input read past its
 end

A memory input returns all it has whatever length is asked for, so running
out of bytes has to be detected from the returned length.
---
 src/GuessFormat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GuessFormat.cc b/src/GuessFormat.cc
index d37734e..48831da 100644
--- a/src/GuessFormat.cc
+++ b/src/GuessFormat.cc
@@ -22,7 +22,7 @@ namespace libvariant {
 			if (i >= len) {
 				unsigned l = i+1;
 				ptr = (const char*)in->GetPtr(l);
-				if (!ptr) {
+				if (!ptr || l <= i) {
 					throw std::runtime_error(
 							"libvariant::GuessFormat: Unable to guess input format, unexpected end of input."
 							);
-- 
2.43.0


From 7027690a9bebc0f47274c6e7da0ead13d996912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:46 +0000
Subject: [PATCH 22/70] fix: a short read is not the end of the input

Read() returns 0 at the end of the stream. A stream that delivered less than
the buffer could hold was truncated there.
---
 src/ParserInput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index aca5ec8..5611884 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -68,7 +68,7 @@ namespace libvariant {
 		while (!eof && (num < len || num == 0)) {
 			unsigned to_read = buffer.size() - num - offset;
 			unsigned num_read = Read(&buffer[num + offset], to_read);
-			if (num_read < to_read) { eof = true; }
+			if (num_read == 0) { eof = true; }
 			num += num_read;
 		}
 		len = num;
-- 
2.43.0


From ccf95c0ce7681ab26ba854fa48fb1765f3deb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:33 +0000
Subject: [PATCH 23/70] fix: YAML emitter freed an event libyaml still owned
 after a write error

---
 src/YAMLEmitter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 868d877..6b81fa0 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -417,7 +417,7 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::Emit(yaml_event_t &event) {
 		if (yaml_emitter_emit(&emitter, &event) == 0) {
-			yaml_event_delete(&event);
+			// yaml_emitter_emit takes the event over, even when it fails.
 			throw std::runtime_error(emitter.problem);
 		}
 	}
-- 
2.43.0


From 5788f58fbad9a027b7798444a53565916bea7b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:33 +0000
Subject: [PATCH 24/70] fix: YAML emitter reported the wrong style parameters

---
 src/YAMLEmitter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 6b81fa0..d2ceb6c 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -164,11 +164,11 @@ namespace libvariant {
 	Variant YAMLEmitterImpl::Config::GetParam(ConfigKeys index) {
 		switch (index) {
 		case SCALAR_STYLE:
-			return scalar_style_str[index];
+			return scalar_style_str[default_scalar_style];
 		case MAP_STYLE:
-			return style_str[index];
+			return style_str[default_map_style];
 		case LIST_STYLE:
-			return style_str[index];
+			return style_str[default_list_style];
 		case IMPLICIT_DOCUMENT_BEGIN:
 			return implicit_begin_document;
 		case IMPLICIT_DOCUMENT_END:
-- 
2.43.0


From 06243026d49425201542ccbb3e14744bb7ce60eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:33 +0000
Subject: [PATCH 25/70] fix: quote YAML strings that would be read back as
 another type

---
 src/GuessScalar.cc | 12 ++++++++++--
 src/GuessScalar.h  |  2 ++
 src/YAMLEmitter.cc |  8 +++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 5094271..5004e6c 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -65,13 +65,21 @@ namespace libvariant {
 		GuessRegex::~GuessRegex() {
 			regfree(&guessregex);
 		}
+
+		const regex_t *GetGuessRegex() {
+			static GuessRegex guessregex;
+			return &guessregex.guessregex;
+		}
+	}
+
+	bool GuessIsString(const char *value) {
+		return regexec(GetGuessRegex(), value, 0, 0, 0) != 0;
 	}
 
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action) {
-		static GuessRegex guessregex;
 		regmatch_t match[MATCH_MAX];
-		if (regexec(&guessregex.guessregex, value, MATCH_MAX, &match[0], 0) == 0) {
+		if (regexec(GetGuessRegex(), value, MATCH_MAX, &match[0], 0) == 0) {
 			if (match[MATCH_NULL].rm_so != -1) {
 				action->Null(p, anchor, tag);
 			} else if (match[MATCH_TRUE].rm_so != -1) {
diff --git a/src/GuessScalar.h b/src/GuessScalar.h
index d610451..74a4518 100644
--- a/src/GuessScalar.h
+++ b/src/GuessScalar.h
@@ -7,6 +7,8 @@
 #pragma once
 #include <Variant/Parser.h>
 namespace libvariant {
+	// Returns true if GuessScalar would take value for a string.
+	bool GuessIsString(const char *value);
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action);
 }
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index d2ceb6c..ba41680 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -26,6 +26,7 @@
 #include <limits>
 #include <cmath>
 #include "Base64.h"
+#include "GuessScalar.h"
 
 namespace libvariant {
 
@@ -317,7 +318,12 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, ANY_SCALAR_STYLE);
+		ScalarStyle style = conf.default_scalar_style;
+		if ((style == ANY_SCALAR_STYLE || style == PLAIN_SCALAR_STYLE) && !GuessIsString(v)) {
+			// Without quotes it would be read back as something else.
+			style = SINGLE_QUOTED_SCALAR_STYLE;
+		}
+		Emit(v, style);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From 541f4267c0e5caea26924bfb5b2554ea32a442c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:33 +0000
Subject: [PATCH 26/70] fix: do not let exceptions from the input unwind
 through libyaml

---
 src/YAMLParser.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 73a03d7..f3d72e1 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -31,15 +31,21 @@ namespace libvariant {
 
 	int YAMLParserImpl::ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein) {
 		YAMLParserImpl *impl = (YAMLParserImpl*)data;
-		unsigned len = size;
-		const void *ptr = impl->input->GetPtr(len);
-		if (!ptr) {
-			*sizein = 0;
-		   	return 1;
-	   	}
-		*sizein = std::min<unsigned>(size, len);
-		memcpy(buffer, ptr, *sizein);
-		impl->input->Release(*sizein);
+		// Called from C code, so exceptions must not escape. libyaml wants 0 on
+		// error.
+		try {
+			unsigned len = size;
+			const void *ptr = impl->input->GetPtr(len);
+			if (!ptr) {
+				*sizein = 0;
+				return 1;
+			}
+			*sizein = std::min<unsigned>(size, len);
+			memcpy(buffer, ptr, *sizein);
+			impl->input->Release(*sizein);
+		} catch (...) {
+			return 0;
+		}
 		return 1;
 	}
 
-- 
2.43.0


From dd19ea720449fd330014d10355984629ee00d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:33 +0000
Subject: [PATCH 27/70] fix: YAML parser looped for ever when run again after
 an error

---
 src/YAMLParser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index f3d72e1..2253c5f 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -112,6 +112,12 @@ namespace libvariant {
 				switch (event.type) {
 				/** An empty event. */
 				case YAML_NO_EVENT:
+					// libyaml has nothing more, after an error or the end.
+					if (err) {
+						throw std::runtime_error(errorstr);
+					}
+					eof = true;
+					loop = false;
 					break;
 
 				/** A STREAM-START event. */
-- 
2.43.0


From 0d981854ee060f94ac16cd62a9e7070ea4c4ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:33 +0000
Subject: [PATCH 28/70] fix: a later YAML anchor overrides an earlier one of
 the same name

---
 src/VariantParsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 4bb32f0..025b08c 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -49,7 +49,7 @@ namespace libvariant {
 		{}
 
 		void Anchor(const char *anchor, Variant v) {
-			if (anchor) { anchors.insert(std::make_pair(std::string(anchor), v)); }
+			if (anchor) { anchors[anchor] = v; }
 		}
 
 		Variant Anchor(const char *anchor) {
-- 
2.43.0


From 731a245e77123e8396e0b7b90be51f59c386143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:33 +0000
Subject: [PATCH 29/70] fix: remember anchors on YAML map keys

---
 src/VariantParsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 025b08c..e70179c 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -157,11 +157,11 @@ namespace libvariant {
 	   	}
 
 		virtual void SetValue(ParserImpl *p, Variant v, const char *anchor) {
+			state->Anchor(anchor, v);
 			if (expect_key) {
 				key = v.AsString();
 				expect_key = false;
 			} else {
-				state->Anchor(anchor, v);
 				result[key] = v;
 				expect_key = true;
 			}
-- 
2.43.0


From 217fca22a21767cec939493605f4a64261c4b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:51 +0000
Subject: [PATCH 30/70] fix: do not leave dangling parser actions behind when
 parsing stops early

---
 src/VariantParsing.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index e70179c..293df34 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -205,11 +205,25 @@ namespace libvariant {
 		p->PushAction(actions);
 	}
 
+	// Take actions that did not finish, and everything pushed on top of them,
+	// off the parser. They point to state that is about to go away.
+	static void PopActions(Parser &p, shared_ptr<VariantBaseParserActions> actions) {
+		if (!actions->done) {
+			while (p.PopAction() != actions);
+		}
+	}
+
 	Variant ParseVariant(Parser &p) {
 		ParserState state;
 		shared_ptr<VariantBaseParserActions> actions(new VariantBaseParserActions(&state, 0));
 		p.PushAction(actions);
-		while (p.Run() == 0 && !actions->done);
+		try {
+			while (p.Run() == 0 && !actions->done);
+		} catch (...) {
+			PopActions(p, actions);
+			throw;
+		}
+		PopActions(p, actions);
 		return state.result;
 	}
 
-- 
2.43.0


From 099739460c91c4f927f5eb69e21c6ba0cca74c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:51 +0000
Subject: [PATCH 31/70] fix: do not let exceptions from the input unwind
 through libxml2

---
 src/XMLPLISTParser.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index cfbaf33..a39ab4e 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -358,13 +358,18 @@ namespace libvariant {
 
 	int XMLPLISTParserImpl::do_read(void *ctx, char *buffer, int len) {
 		XMLPLISTParserImpl *impl = (XMLPLISTParserImpl*)ctx;
-		unsigned l = len;
-		const void *ptr = impl->input->GetPtr(l);
-		if (!ptr) { return 0; }
-		l = std::min<unsigned>(len, l);
-		memcpy(buffer, ptr, l);
-		impl->input->Release(l);
-		return l;
+		// Called from C code, so exceptions must not escape.
+		try {
+			unsigned l = len;
+			const void *ptr = impl->input->GetPtr(l);
+			if (!ptr) { return 0; }
+			l = std::min<unsigned>(len, l);
+			memcpy(buffer, ptr, l);
+			impl->input->Release(l);
+			return l;
+		} catch (...) {
+			return -1;
+		}
 	}
 
 	int XMLPLISTParserImpl::do_close(void *ctx) {
-- 
2.43.0


From e9ec6bf09a3fdb8c6c97152bd1eb2e2fb2604d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:51 +0000
Subject: [PATCH 32/70] fix: XML parser used an uninitialised reader when
 creating it failed

---
 src/XMLPLISTParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index a39ab4e..daed90c 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -379,7 +379,7 @@ namespace libvariant {
 	}
 
 	XMLPLISTParserImpl::XMLPLISTParserImpl(shared_ptr<ParserInput> in)
-		: input(in), closed(false), err(false)
+		: reader(0), input(in), closed(false), err(false)
    	{
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
 				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
-- 
2.43.0


From 1850319310f55dd33be7901c6ff852dee1d712ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:07 +0000
Subject: [PATCH 33/70] fix: XML strings of white space only were read back as
 empty

---
 src/XMLPLISTParser.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index daed90c..87e5e8b 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -101,6 +101,12 @@ namespace libvariant {
 					case XML_READER_TYPE_TEXT:
 						loop = ProcessText(TopAction());
 						break;
+					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
+						// A string can consist of white space only.
+						if (statestack.back() == StringNode || statestack.back() == KeyNode) {
+							loop = ProcessText(TopAction());
+						}
+						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
 					case XML_READER_TYPE_CDATA:
@@ -113,7 +119,6 @@ namespace libvariant {
 					case XML_READER_TYPE_DOCUMENT_FRAGMENT:
 					case XML_READER_TYPE_NOTATION:
 					case XML_READER_TYPE_WHITESPACE:
-					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 					case XML_READER_TYPE_XML_DECLARATION:
 					case XML_READER_TYPE_NONE:
 					default:
-- 
2.43.0


From 8e50f6f8f8697afd8b52dbb5352f48f550a1da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:13 +0000
Subject: [PATCH 34/70] fix: read back the empty data element written for an
 empty blob

---
 src/XMLPLISTParser.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 87e5e8b..2b71cac 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -316,11 +316,7 @@ namespace libvariant {
 			}
 			return false;
 		case BlobNode:
-			if (empty) {
-				err = true;
-				errorstr = "libvariant XML PLIST parser cannot have empty data nodes";
-				throw std::runtime_error(errorstr);
-			}
+			if (empty) { action->Scalar(this, Blob::CreateCopy("", 0), 0, 0); }
 			return false;
 		case StringNode:
 		case KeyNode:
-- 
2.43.0


From 90a366bd66bf0709a8431738a0f9d9d7d013fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:26 +0000
Subject: [PATCH 35/70] fix: parser actions were used after being freed when a
 document is a bare list or map

---
 src/VariantParsing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 293df34..75b826c 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -121,13 +121,14 @@ namespace libvariant {
 		}
 
 		void Finish(ParserImpl *p) {
+			done = true;
+			// Take this off the stack first because base may finish too.
+			shared_ptr<ParserActions> self = p->PopAction();
 			if (base) {
 				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
 			} else {
 				state->result = result;
 			}
-			done = true;
-			p->PopAction();
 		}
 
 		int Level() {
-- 
2.43.0


From 670da477ecf237b68d987a4be8a37151e5503912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:17 +0000
Subject: [PATCH 36/70] fix: XML documents that are a bare scalar, and text in
 several pieces, were not read

---
 src/XMLPLISTParser.cc | 29 +++++++++++++++++++----------
 src/XMLPLISTParser.h  |  1 +
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 2b71cac..11b0e1e 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -99,12 +99,13 @@ namespace libvariant {
 						loop = EndElement(TopAction(), StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
-						loop = ProcessText(TopAction());
+						// May come in pieces, used when the element ends.
+						text += (const char*)xmlTextReaderConstValue(reader);
 						break;
 					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 						// A string can consist of white space only.
 						if (statestack.back() == StringNode || statestack.back() == KeyNode) {
-							loop = ProcessText(TopAction());
+							text += (const char*)xmlTextReaderConstValue(reader);
 						}
 						break;
 					case XML_READER_TYPE_END_ENTITY:
@@ -141,10 +142,11 @@ namespace libvariant {
 
 	bool XMLPLISTParserImpl::BeginElement(ParserActions *action, State_t nodetype) {
 		bool empty_node = xmlTextReaderIsEmptyElement(reader) != 0;
+		text.clear();
 		switch (nodetype) {
 		case NullNode:
 			if (!empty_node) { statestack.push_back(nodetype); }
-			action->Null(this, 0, 0);
+			else { action->Null(this, 0, 0); }
 			return !empty_node;
 		case RootNode:
 			statestack.push_back(nodetype);
@@ -152,11 +154,11 @@ namespace libvariant {
 			return !empty_node;
 		case TrueNode:
 			if (!empty_node) { statestack.push_back(nodetype); }
-			action->Scalar(this, true, 0, 0);
+			else { action->Scalar(this, true, 0, 0); }
 			return !empty_node;
 		case FalseNode:
 			if (!empty_node) { statestack.push_back(nodetype); }
-			action->Scalar(this, false, 0, 0);
+			else { action->Scalar(this, false, 0, 0); }
 			return !empty_node;
 		case IntegerNode:
 			if (!empty_node) {
@@ -238,7 +240,7 @@ namespace libvariant {
 		case IntegerNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = text.c_str();
 				intmax_t val;
 				val = strtoll(value, 0, 0);
 				if (val == LLONG_MAX && errno == ERANGE) {
@@ -253,7 +255,7 @@ namespace libvariant {
 		case FloatNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = text.c_str();
 				double val = strtod(value, 0);
 				action->Scalar(this, val, 0, 0);
 			}
@@ -261,14 +263,14 @@ namespace libvariant {
 		case StringNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = text.c_str();
 				action->Scalar(this, value, strlen(value), 0, 0);
 			}
 			return true;
 		case BlobNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = text.c_str();
 				unsigned length = strlen(value);
 				void *data = 0;
 				if (posix_memalign(&data, 64, Base64DecodeSize(length)) != 0) {
@@ -283,7 +285,7 @@ namespace libvariant {
 		case KeyNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = text.c_str();
 				action->Scalar(this, value, strlen(value), 0, 0);
 			}
 			return true;
@@ -301,11 +303,18 @@ namespace libvariant {
 			errorstr = "libvariant XML PLIST parser in inconsistent state";
 			throw std::runtime_error(errorstr);
 		}
+		if (!text.empty()) { ProcessText(action); }
+		text.clear();
 		statestack.pop_back();
 		switch (nodetype) {
 		case NullNode:
+			action->Null(this, 0, 0);
+			return false;
 		case TrueNode:
+			action->Scalar(this, true, 0, 0);
+			return false;
 		case FalseNode:
+			action->Scalar(this, false, 0, 0);
 			return false;
 		case IntegerNode:
 		case FloatNode:
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 6802ef0..3829449 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -73,6 +73,7 @@ namespace libvariant {
 		shared_ptr<ParserInput> input;
 		bool closed;
 		bool empty;
+		std::string text;
 		bool err;
 		std::string errorstr;
 	};
-- 
2.43.0


From a5c3fd8fd38c72b3db4d6c0ba9c323de5ac57121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:17 +0000
Subject: [PATCH 37/70] fix: iterating over all documents of an XML input never
 ended

---
 src/XMLPLISTParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 11b0e1e..a2372c6 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -406,7 +406,7 @@ namespace libvariant {
 	}
 
 	bool XMLPLISTParserImpl::Done() const {
-		return closed;
+		return closed || statestack.back() == EndState;
 	}
 
 	bool XMLPLISTParserImpl::Error() const {
-- 
2.43.0


From 48061717d9ebf567823a81139cfe37ff2c9bdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:24 +0000
Subject: [PATCH 38/70] fix: a list element could not be removed through a JSON
 pointer

---
 src/Extensions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 35eb6a1..82108ba 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -443,8 +443,8 @@ namespace libvariant {
 					op.success = true;
 					return v.At(index);
 				case OP_REMOVE:
-					op.value = v.At(component);
-					v.Erase(index);
+					op.value = v.At(index);
+					v.AsList().erase(v.ListBegin()+index);
 					op.success = true;
 					return v.At(index);
 				case OP_TEST:
-- 
2.43.0


From 45f1728490de6f1a6c125c318d82e460a13ca0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:24 +0000
Subject: [PATCH 39/70] fix: adding past the end of a list through a JSON
 pointer wrote outside it

---
 src/Extensions.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 82108ba..66c7797 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -431,6 +431,9 @@ namespace libvariant {
 			if (!IsIndex(component, index)) {
 				throw std::runtime_error("Attempting to index an array with a string");
 			}
+			if (index > v.Size()) {
+				throw std::runtime_error("Attempting to reference past the end of an array");
+			}
 			op.path.push_back(index);
 			if (is_last) {
 				switch (op.op) {
-- 
2.43.0


From 0c70095a0e1c63809160178412d6986df55083f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:24 +0000
Subject: [PATCH 40/70] fix: a failed JSON patch left lists it had inserted
 into or replaced in changed

---
 src/Extensions.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 66c7797..7a0101d 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -438,10 +438,6 @@ namespace libvariant {
 			if (is_last) {
 				switch (op.op) {
 				case OP_ADD:
-					if (v.Contains(index)) {
-						op.old_value = v.Get(index);
-						op.replaced = true;
-					}
 					v.AsList().insert(v.ListBegin()+index, op.value);
 					op.success = true;
 					return v.At(index);
@@ -616,7 +612,17 @@ namespace libvariant {
 				}
 				break;
 			case OP_REMOVE:
-				v.ErasePath(p.path);
+				if (p.path.size() > 0) {
+					Path path = p.path;
+					PathElement elem = path.back();
+					path.pop_back();
+					VariantRef r = v.AtPath(path);
+					if (r.IsList()) {
+						r.AsList().erase(r.ListBegin()+elem.AsUnsigned());
+					} else {
+						r.Erase(elem.AsString());
+					}
+				}
 				break;
 			case OP_TEST:
 			case OP_GET:
@@ -655,6 +661,7 @@ namespace libvariant {
 					return false;
 				}
 				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
+				undo->push_back(Patch_t(OP_REMOVE, op.path));
 				return op.success;
 			} else if (oper == "move") {
 				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
-- 
2.43.0


From 42284aa64b3b6be30b3b8821712f143181c219d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:24 +0000
Subject: [PATCH 41/70] fix: a patched document shared values with the JSON
 patch

---
 src/Extensions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 7a0101d..2452a27 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -639,7 +639,7 @@ namespace libvariant {
 		try {
 			if (oper == "add") {
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
-				op.value = diff.Get("value");
+				op.value = diff.Get("value").Copy();
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
 					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
@@ -656,7 +656,7 @@ namespace libvariant {
 				op = Operation_t(OP_GET, diff.Get("path").AsString());
 				VariantRef r = JSONPointerOp(op.pointer, v, op);
 				if (r.Exists()) {
-					r = diff.Get("value");
+					r = diff.Get("value").Copy();
 				} else {
 					return false;
 				}
-- 
2.43.0


From fb383891f8f46b72a09f01c0b4c97bf2696652fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:24 +0000
Subject: [PATCH 42/70] fix: a JSON patch copy shared the value instead of
 copying it

---
 src/Extensions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 2452a27..c62b836 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -680,7 +680,7 @@ namespace libvariant {
 			} else if (oper == "copy") {
 				op = Operation_t(OP_GET, diff.Get("from").AsString());
 				JSONPointerOp(op.pointer, v, op);
-				Variant data = op.value;
+				Variant data = op.value.Copy();
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-- 
2.43.0


From e0406b60398df3a7c69ea84fc38e682a7acc0f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:24 +0000
Subject: [PATCH 43/70] fix: a failed move through JSON pointers lost a list
 element and the reason

---
 src/Extensions.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index c62b836..d50ef70 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -519,14 +519,13 @@ namespace libvariant {
 		try {
 			JSONPointerOp(op.pointer, v, op);
 			Variant data = op.value;
-			Path path = op.path;
 			try {
 				op = Operation_t(OP_ADD, dst);
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-			} catch (const std::exception &e) {
-				v.SetPath(path, data);
-				throw e;
+			} catch (const std::exception &) {
+				JSONPointerAdd(src, v, data);
+				throw;
 			}
 		} catch (const std::exception &e) {
 			std::ostringstream oss;
-- 
2.43.0


From a4ddcb41e1a67df01adf2e46388cd9a6bd4fb3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:24 +0000
Subject: [PATCH 44/70] fix: keys containing '/' or '~' were not escaped in
 JSON pointers

---
 src/Extensions.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index d50ef70..d0180bb 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -569,13 +569,27 @@ namespace libvariant {
 		}
 	}
 
+	static std::string JSONPointerEscape(const std::string &component) {
+		std::string ret;
+		for (std::string::const_iterator i(component.begin()), e(component.end()); i != e; ++i) {
+			if (*i == '~') {
+				ret += "~0";
+			} else if (*i == '/') {
+				ret += "~1";
+			} else {
+				ret += *i;
+			}
+		}
+		return ret;
+	}
+
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
 			} else {
-				ret << "/" << i->AsString();
+				ret << "/" << JSONPointerEscape(i->AsString());
 			}
 		}
 		return ret.str();
-- 
2.43.0


From 0ccc56321fe3aa9949151fbfa521d41afe0b3c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:24 +0000
Subject: [PATCH 45/70] fix: the JSON diff to a shorter list removed the wrong
 elements

---
 src/Extensions.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index d0180bb..a60b6e1 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -773,7 +773,13 @@ namespace libvariant {
 			switch (src.GetType()) {
 			case Variant::ListType:
 				{
-					uintmax_t len = std::max<uintmax_t>(src.Size(), dst.Size());
+					// Remove from the back, removing an element moves the ones behind it
+					for (uintmax_t i = src.Size(); i > dst.Size(); --i) {
+						path.push_back(PathElement(i - 1));
+						JSONDiffRef(src.At(i - 1), dst.At(i - 1), diff, path);
+						path.pop_back();
+					}
+					uintmax_t len = dst.Size();
 					for (uintmax_t i = 0; i < len; ++i) {
 						path.push_back(PathElement(i));
 							JSONDiffRef(src.At(i), dst.At(i), diff, path);
-- 
2.43.0


From 897d3df27b5da0cbde3495601feda1cab749c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:24 +0000
Subject: [PATCH 46/70] fix: JSON pointers took signs, blanks and leading zeros
 for list indexes

---
 src/Extensions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index a60b6e1..9dc2476 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -332,10 +332,10 @@ namespace libvariant {
 	static bool IsIndex(const std::string &str, uintmax_t &index) {
 		const char *b = str.c_str();
 		char *e = 0;
+		// Only digits without leading zeros are an index
+		if (!isdigit((unsigned char)*b) || (*b == '0' && str.size() > 1)) { return false; }
 		unsigned long long v = strtoull(b, &e, 10);
-		if (e == b) { return false; }
-		while (e != 0 && *e != '\0' && isspace(*e)) { ++e; }
-		if (e == 0 || *e != '\0') { return false; }
+		if (e != b + str.size()) { return false; }
 		index = v;
 		return true;
 	}
-- 
2.43.0


From ef2d87a9ea49255e11310ecbe3b08dd93b9ef247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:07 +0000
Subject: [PATCH 47/70] fix: a null entry in a recursive update added an empty
 map

---
 src/Extensions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 9dc2476..5dab6b2 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -268,6 +268,7 @@ namespace libvariant {
 		case Variant::MapType:
 			if ( !base.Exists() || base.IsMap() ) {
 				for ( Variant::ConstMapIterator i(update.MapBegin()), e(update.MapEnd()); i != e; ++i ) {
+					if ( i->second.IsNull() ) { continue; }
 					RUpdate(base.At( i->first, Variant::MapType ), update[ i->first ]);
 				}
 				break;
-- 
2.43.0


From dbacad10b2d18808c299b3f122eca98c8cfdc9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:22 +0000
Subject: [PATCH 48/70] fix: a '@' in the path, query or fragment of a URI was
 taken for a user name

---
 src/SchemaLoader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f688427..cab319b 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -192,7 +192,7 @@ namespace libvariant {
 			memset(&regex, 0, sizeof(regex_t));
 			int ret = regcomp(&regex,
 "^[[:space:]]*([^:\\/?#]+:)?" // PROTOCOL
-"(//([^:@]*(:[^:@]*)?@)?([^:/?#]*)(:[0-9]*)?)?" // (//((user(:host)@)(hostname)(:port)))
+"(//([^:@/?#]*(:[^:@/?#]*)?@)?([^:/?#]*)(:[0-9]*)?)?" // (//((user(:host)@)(hostname)(:port)))
 "([^?#]*)" // PATHNAME
 "(\\?[^#]*)?" // SEARCH
 "(#[^[:space:]]*)?[[:space:]]*$" // HASH
-- 
2.43.0


From bd0c0f4a2302e5114030c617d67d612b156db719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:07 +0000
Subject: [PATCH 49/70] fix: validating against a multipleOf of zero divided by
 zero

---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8ff405c..95c5379 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -699,7 +699,7 @@ namespace libvariant {
 		}
 		AutoSchemaPath spath(ctx, multkey);
 		Variant multipleof = schema[multkey];
-		if (!multipleof.IsNumber() || multipleof < 0) {
+		if (!multipleof.IsNumber() || multipleof <= 0) {
 			std::ostringstream oss;
 			oss << "\"" << multkey << "\" must be a positive number";
 			ctx.AddSchemaError(oss.str());
-- 
2.43.0


From 2d9097d15f40c5946b8913fca98cb67e93f7900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:07 +0000
Subject: [PATCH 50/70] fix: multipleOf accepted or rejected negative numbers
 wrongly

---
 src/Schema.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 95c5379..281516c 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -705,7 +705,8 @@ namespace libvariant {
 			ctx.AddSchemaError(oss.str());
 			return;
 		}
-		Variant mod = data % multipleof;
+		// Only the magnitude matters, the remainder of a negative value has no single meaning
+		Variant mod = (data < 0 ? -data : data) % multipleof;
 		if (data.IsFloat() || multipleof.IsFloat()) {
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
-- 
2.43.0


From 333d212a8c4ea85b014d2e317caad42d77942834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:47 +0000
Subject: [PATCH 51/70] fix: adding the defaults of a schema that contains
 itself never ended

---
 src/Schema.cc | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 281516c..68ebeb3 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -25,6 +25,7 @@
 #include <Variant/Schema.h>
 #include <Variant/Path.h>
 #include <vector>
+#include <set>
 #include <stdexcept>
 #include <sstream>
 #include <regex.h>
@@ -841,20 +842,29 @@ namespace libvariant {
 		return ctx.result;
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader);
+	// refs are the references being followed for a value that is not in the data yet, a schema
+	// that contains itself has no end otherwise.
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, std::set<std::string> refs);
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader, const std::set<std::string> &refs) {
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader);
+				AddSchemaDefaultsImpl(*i, data, loader, refs);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader) {
+	static void AddSchemaChildDefaults(Variant schema, VariantRef data, SchemaLoader *loader, const std::set<std::string> &refs) {
+		AddSchemaDefaultsImpl(schema, data, loader, data.Exists() ? std::set<std::string>() : refs);
+	}
+
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, std::set<std::string> refs) {
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
-			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader);
+			std::string ref = schema["$ref"].AsString();
+			if (refs.insert(ref).second) {
+				AddSchemaDefaultsImpl(loader->GetSchema(ref), data, loader, refs);
+			}
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
@@ -864,22 +874,22 @@ namespace libvariant {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader);
+				AddSchemaChildDefaults(i->second, data.At(i->first), loader, refs);
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader);
+					AddSchemaChildDefaults(schema["items"][i], data[i], loader, refs);
 				}
 			} else {
-				AddSchemaDefaultsImpl(schema["items"], data[0], loader);
+				AddSchemaChildDefaults(schema["items"], data[0], loader, refs);
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, refs);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader, refs);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader, refs);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
@@ -891,7 +901,9 @@ namespace libvariant {
 			schema = lloader.GetSchema(schema.AsString());
 		}
 		lloader.AddSchema("", schema);
-		AddSchemaDefaultsImpl(schema, data, &lloader);
+		std::set<std::string> refs;
+		refs.insert("#");
+		AddSchemaDefaultsImpl(schema, data, &lloader, refs);
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From 011f8ff323dca5865882dc481de7db0b9aa48a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:16 +0000
Subject: [PATCH 52/70] fix: keep a value intact when giving it new contents
 fails

Changing the type of a value released the old contents and switched the type
before the new contents were allocated. When that allocation threw, the value
claimed to be a string, list, map or blob without having one and the next use
of it crashed. Allocate first.

This also makes it safe to assign a value from a string it contains, such as
one of its own keys.
---
 src/Variant.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index dd11464..962f6c5 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1080,9 +1080,9 @@ namespace libvariant {
 		}
 
 		void StringInit(Data *that, const std::string &s) {
+			shared_ptr<StringStorage> storage(new StringStorage(s));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = StringVTable();
-			shared_ptr<StringStorage> storage(new StringStorage(s));
 			that->s = &storage->str;
 			that->storage = storage;
 		}
@@ -1220,9 +1220,9 @@ namespace libvariant {
 		}
 
 		void ListInit(Data *that, const Variant::List &l) {
+			shared_ptr<ListStorage> storage(new ListStorage(l));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = ListVTable();
-			shared_ptr<ListStorage> storage(new ListStorage(l));
 			that->l = storage.get();
 			that->storage = storage;
 		}
@@ -1346,9 +1346,9 @@ namespace libvariant {
 		}
 
 		void MapInit(Data *that, const Variant::Map &m) {
+			shared_ptr<MapStorage> storage(new MapStorage(m));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = MapVTable();
-			shared_ptr<MapStorage> storage(new MapStorage(m));
 			that->m = storage.get();
 			that->storage = storage;
 		}
@@ -1411,9 +1411,9 @@ namespace libvariant {
 		}
 
 		void BlobInit(Data *that, BlobPtr blob) {
+			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = BlobVTable();
-			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			that->blob = &storage->blob;
 			that->storage = storage;
 		}
@@ -1933,10 +1933,11 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e) {
 			static const Proxy proxy_vtable;
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
+			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
-			that->ref_data = ref->vtable->EnsureRef(ref);
-			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
+			that->ref_data = ref_data;
 			that->proxy = storage.get();
 			that->storage = storage;
 		}
-- 
2.43.0


From 0fc39055c5ba5814d0ec5e4f7415a5e352c2f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:16 +0000
Subject: [PATCH 53/70] fix: do not leak the copied bytes when creating a blob
 runs out of memory

---
 src/Blob.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Blob.cc b/src/Blob.cc
index f2b179e..9223697 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -48,7 +48,14 @@ namespace libvariant {
 			copied += iov[i].iov_len;
 		}
 		struct iovec v = { data, len };
-		return shared_ptr<Blob>(new Blob(&v, 1, MallocFree, 0));
+		Blob *blob = 0;
+		try {
+			blob = new Blob(&v, 1, MallocFree, 0);
+		} catch (...) {
+			free(data);
+			throw;
+		}
+		return shared_ptr<Blob>(blob);
 	}
 
 	shared_ptr<Blob> Blob::CreateFree(void *ptr, unsigned len) {
-- 
2.43.0


From 31bbae6b8bfe94f89e2241b21707ab846086d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:13 +0000
Subject: [PATCH 54/70] fix: allow assigning to a value the list or map it
 holds

Assigning a std::vector or std::map released the value's contents before
copying from the container. When the container was the value's own list or
map, or one nested in it, the copy read freed memory. Build the new list or
map first.
---
 include/Variant/Variant.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/Variant/Variant.h b/include/Variant/Variant.h
index a01d238..84912bf 100644
--- a/include/Variant/Variant.h
+++ b/include/Variant/Variant.h
@@ -393,14 +393,17 @@ namespace libvariant {
 
 		template<typename T>
 		void Assign(const std::vector<T> &v) {
-			Assign(VariantDefines::ListType);
-			AsList().assign(v.begin(), v.end());
+			// v may be part of what this holds, so build the list first
+			Variant list(VariantDefines::ListType);
+			list.AsList().assign(v.begin(), v.end());
+			Assign(list);
 		}
 
 		template<typename T>
 		void Assign(const std::map<std::string, T> &v) {
-			Assign(VariantDefines::MapType);
-			AsMap().insert(v.begin(), v.end());
+			Variant map(VariantDefines::MapType);
+			map.AsMap().insert(v.begin(), v.end());
+			Assign(map);
 		}
 
 	protected:
-- 
2.43.0


From a831b8eeb5ef523bc34912cfca22d508ce1f8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:25 +0000
Subject: [PATCH 55/70] fix: let an option be made optional again with
 Required(false)

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1b8235a..0dac268 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -553,7 +553,7 @@ namespace libvariant {
 	}
 
 	ArgParseOption &ArgParseOption::Required(bool req) {
-		impl->required = true;
+		impl->required = req;
 		return *this;
 	}
 
-- 
2.43.0


From 45e5e5395e351839184d4623b82c88ba69a2226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:25 +0000
Subject: [PATCH 56/70] fix: reject integer arguments that do not fit their
 option's type

---
 src/ArgParse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 0dac268..69fa3c9 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1521,9 +1521,11 @@ namespace libvariant {
 		{
 			long long val;
 			char *end = 0;
+			errno = 0;
 			val = strtoll(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
+			if (val == LLONG_MIN && errno == ERANGE) { ParseArgIntError(arg); }
 			if (!(val == LLONG_MAX && errno == ERANGE)) {
 				return Variant(val);
 			}
@@ -1532,9 +1534,12 @@ namespace libvariant {
 		{
 			char *end = 0;
 			unsigned long long val;
+			errno = 0;
 			val = strtoull(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
+			if (errno == ERANGE) { ParseArgIntError(arg); }
+			if (val != 0 && strchr(arg, '-')) { ParseArgIntError(arg); }
 			return Variant(val);
 		}
 		case Variant::FloatType:
-- 
2.43.0


From 239155cb4107215c523b6e208ef0b452ad09747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:13 +0000
Subject: [PATCH 57/70] fix: do not treat a counting option that was not given
 as given

---
 src/ArgParse.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 69fa3c9..274c194 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -974,7 +974,6 @@ namespace libvariant {
 					{ o.longOpt.c_str(), (o.HasArg() ? 1 : 0), 0, id };
 					longOpts.push_back(tmp_option);
 				}
-				if (o.action == ARGACTION_COUNT) { o.result = 0u; }
 				// Handle environment variables
 				if (o.opt.Contains("env")) {
 					const char *env = getenv(o.opt["env"].AsString().c_str());
@@ -1357,6 +1356,7 @@ namespace libvariant {
 			}
 			break;
 		case ARGACTION_COUNT:
+			if (result.IsNull()) { result = 0u; }
 			if (arg.IsNumber()) {
 				result += arg.AsInt();
 			} else {
@@ -1611,7 +1611,8 @@ namespace libvariant {
 	}
 
 	void ArgParseOptImpl::FinalizeResult() {
-		if (opt.Contains("default") && result.IsNull()) {
+		bool count_default = (action == ARGACTION_COUNT && !required);
+		if ((opt.Contains("default") || count_default) && result.IsNull()) {
 			bool add_default = true;
 			for (std::set<std::string>::iterator i(groups.begin()), e(groups.end());
 				i != e; ++i)
@@ -1638,7 +1639,10 @@ namespace libvariant {
 					break;
 				case ARGACTION_APPEND:
 					result.Append(opt["default"]);
+					break;
 				case ARGACTION_COUNT:
+					if (count_default) { result = 0u; }
+					break;
 				case ARGACTION_HELP:
 				case ARGACTION_ADVHELP:
 				case ARGACTION_CONFIG:
-- 
2.43.0


From 7c95ddb2cfcb6039c82b92548c447be4f5053cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:13 +0000
Subject: [PATCH 58/70] fix: do not mix the results of earlier calls into those
 of ArgParse::Parse

---
 src/ArgParse.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 274c194..f58b19a 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -962,6 +962,10 @@ namespace libvariant {
 		try {
 			std::string shortOpts;
 			std::vector<struct option> longOpts;
+			// Forget the results of an earlier call
+			for (optmap_iter i(option_map.begin()), e(option_map.end()); i != e; ++i) {
+				i->second.result = Variant();
+			}
 			for (optmap_iter i(option_map.begin()), e(option_map.end()); i != e; ++i) {
 				ArgParseOptImpl &o = i->second;
 				int id = i->first;
-- 
2.43.0


From 9cebabe8c5945c757d03aaea0cc534a6b3b4af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:54 +0000
Subject: [PATCH 59/70] fix: make getopt forget the previous command line
 before parsing another

Setting optind to 1 leaves getopt pointing into the last word of the
previous command line, which may have been freed since.  Setting it to 0
also resets that pointer.
---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index f58b19a..070ddef 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -990,7 +990,7 @@ namespace libvariant {
 				longOpts.push_back(tmp_option);
 			}
 
-			optind = 1; // Make sure getopt is in initial state
+			optind = 0; // Make sure getopt is in initial state
 			while (true) {
 				int c = getopt_long(argc, argv, shortOpts.c_str(), &longOpts[0], 0);
 				if (c == -1) { break; }
-- 
2.43.0


From bf34713b7bd2245b94fa1b21f1c9e7b46ba33502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:50 +0000
Subject: [PATCH 60/70] fix: keep a list's elements when the largest index is
 set or erased

The size needed for an element at the largest index wraps to zero, so
setting it emptied the list before failing. Assigning to v[-1] did the
same. Erasing it failed although erasing any other index past the end
does nothing.
---
 src/Variant.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 962f6c5..51f4f6b 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1160,7 +1160,7 @@ namespace libvariant {
 		void List::EraseIndex(Data *that, unsigned i) const
 		{
 			unsigned size = that->l->list.size();
-			if (i + 1 < size) {
+			if (i < size && i + 1 < size) {
 				that->l->list.at(i).Assign(Variant::NullType);
 			} else if (i < size) {
 				that->l->list.pop_back();
@@ -1171,6 +1171,7 @@ namespace libvariant {
 			if (i < that->l->list.size()) {
 				return VariantRef(that->l->list.at(i));
 			} else if (def) {
+				if (i + 1 == 0) { throw std::out_of_range("Variant::List index out of range."); }
 				that->l->list.resize(i + 1);
 				that->l->list.at(i) = *def;
 				return VariantRef(that->l->list.at(i));
@@ -1201,6 +1202,7 @@ namespace libvariant {
 
 		void List::SetIndex(Data *that, unsigned i, const Data *other) const {
 			if ( ! (i < that->l->list.size()) ) {
+				if (i + 1 == 0) { throw std::out_of_range("Variant::List index out of range."); }
 				that->l->list.resize(i + 1);
 			}
 			other->vtable->Assign(other, VTable::GetData(&that->l->list.at(i)));
-- 
2.43.0


From 9abd7e7e9002477377955905d109d52897bb6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:14 +0000
Subject: [PATCH 61/70] fix: look schemas up by their resolved URI when it has
 a fragment

Schemas are stored under their resolved URI. A lookup resolved the URI
only when it had no fragment, so "./a.json#/definitions/x" was loaded,
stored as "a.json" and then not found.
---
 src/SchemaLoader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index cab319b..ea666d9 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -127,7 +127,7 @@ namespace libvariant {
 		std::string::size_type hashIndex = uri.find("#");
 		if (hashIndex != std::string::npos) {
 			fragment = uri.substr(hashIndex + 1);
-			baseuri = uri.substr(0, hashIndex);
+			baseuri = ResolveURI(uri.substr(0, hashIndex), "");
 		}
 		iter = schemas.find(baseuri);
 		if (iter == schemas.end()) {
-- 
2.43.0


From 972ed15b52812f87969968e006ddf7d0aefdbaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:12 +0000
Subject: [PATCH 62/70] fix: honour the precision given when creating a bundle
 header emitter

The parameter is documented, and could be set afterwards, but the one
passed to the constructor was ignored.
---
 src/BundleHdrEmitter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 0cdddfc..5f6f0fd 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -18,6 +18,9 @@ namespace libvariant {
 		state(BHE_START),
 		numeric_precision(std::numeric_limits<double>::digits10+2)
    	{
+		if (params.IsMap()) {
+			params.GetInto(numeric_precision, "precision", numeric_precision);
+		}
 	}
 
 
-- 
2.43.0


From 72abb2a72db2c2a20e119a8e21a18642a1237680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:12 +0000
Subject: [PATCH 63/70] fix: let the strict parameter of the JSON emitter be
 read and set

It was only taken into account when given at creation.
---
 src/JSONEmitter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 06bb1d3..fc0e669 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -175,6 +175,7 @@ namespace libvariant {
 		if (key == "pretty") { return pretty; }
 		if (key == "indent") { return num_indent; }
 		if (key == "precision") { return numeric_precision; }
+		if (key == "strict") { return strict; }
 		return Variant::NullType;
 	}
 
@@ -183,6 +184,7 @@ namespace libvariant {
 		ret["pretty"] = pretty;
 		ret["indent"] = num_indent;
 		ret["precision"] = numeric_precision;
+		ret["strict"] = strict;
 		return ret;
 	}
 
@@ -196,6 +198,9 @@ namespace libvariant {
 		if (key == "precision") {
 			numeric_precision = value.AsUnsigned();
 		}
+		if (key == "strict") {
+			strict = value.AsBool();
+		}
 	}
 
 	void JSONEmitterImpl::CheckSeparator() {
-- 
2.43.0


From 04b3f1d2533c1ff83ada7a967086c307f235ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:44 +0000
Subject: [PATCH 64/70] fix: use the program name when ArgParse is given a C
 string

ArgParse(argv[0]), as in the documentation, selected the constructor
taking a bool, so the name was ignored.
---
 include/Variant/ArgParse.h | 1 +
 src/ArgParse.cc            | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/Variant/ArgParse.h b/include/Variant/ArgParse.h
index 97e0a17..6360e4b 100644
--- a/include/Variant/ArgParse.h
+++ b/include/Variant/ArgParse.h
@@ -203,6 +203,7 @@ namespace libvariant {
 		//! addhelp true causes AddHelp to be called.
 		ArgParse(bool addhelp=true);
 		ArgParse(const std::string &pname, bool addhelp=true);
+		ArgParse(const char *pname, bool addhelp=true);
 
 		//! Add the option and configure it as an option that takes an argument.
 		//The default action will be "store" and type will be unspecified
diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 070ddef..03b7c3c 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -660,6 +660,10 @@ namespace libvariant {
 		: impl(shared_ptr<ArgParseImpl>(new ArgParseImpl(pname, addhelp)))
 	{}
 
+	ArgParse::ArgParse(const char *pname, bool addhelp)
+		: impl(shared_ptr<ArgParseImpl>(new ArgParseImpl(pname ? pname : "", addhelp)))
+	{}
+
 	ArgParseOption ArgParse::AddOption(const std::string &keypath, int shortOpt, const std::string &longOpt,
 				const std::string &helptxt)
 	{
-- 
2.43.0


From 029678347b5a043a3ca5c6c35216b2421e8962f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:44 +0000
Subject: [PATCH 65/70] fix: find the program name through /proc/self/exe

readlink returns the length of the name, not zero, so the name found
was never used.
---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 03b7c3c..1ead95f 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -919,7 +919,7 @@ namespace libvariant {
 			#if __linux__
 			if (!progname || !strlen(progname)) {
 				size_t bufsize = sizeof(buf);
-				if (0 == readlink("/proc/self/exe", buf, bufsize)) {
+				if (0 < readlink("/proc/self/exe", buf, bufsize - 1)) {
 					progname = buf;
 				}
 			}
-- 
2.43.0


From 4802372baca9cdf4ccf7d90c6b57dad118e8a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:14 +0000
Subject: [PATCH 66/70] fix: report an input file that varsh cannot open

An input file that does not exist was read as an empty document.  With
the default input format that printed null and exited with status 0.
---
 src/varsh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index 3595288..d96a64d 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -222,6 +222,10 @@ int main(int argc, char **argv) {
 	if (state.conf.Contains("input")) {
 		for (Variant::ListIterator i(state.conf["input"].ListBegin()), e(state.conf["input"].ListEnd()); i != e; ++i) {
 			ifstream input(i->AsString().c_str());
+			if (!input) {
+				cerr << "Unable to open " << i->AsString() << endl;
+				return 1;
+			}
 			Process(state, *output, input);
 		}
 	} else {
-- 
2.43.0


From 58ccc3c0eb5dfbcb8e1d46c0132735a605883622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:53 +0000
Subject: [PATCH 67/70] fix: name the keyword when the properties of a schema
 are no object

The path of the schema error ended at the schema that holds the keyword,
unlike the paths of all other schema errors.
---
 src/Schema.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Schema.cc b/src/Schema.cc
index 68ebeb3..7c3b02a 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -305,6 +305,7 @@ namespace libvariant {
 		}
 		Variant properties = schema.Get("properties", Variant::MapType);
 		if (!properties.IsMap()) {
+			AutoSchemaPath spath(ctx, "properties");
 			ctx.AddSchemaError("\"properties\" must be an object");
 			properties = Variant::MapType;
 		}
-- 
2.43.0


From 849b511803c569b147b62f7796d871243360e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:06 +0000
Subject: [PATCH 68/70] fix: name maxProperties when it is not a number

---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 7c3b02a..d2a2212 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -398,7 +398,7 @@ namespace libvariant {
 					ctx.AddError(oss.str());
 				}
 			} else {
-				ctx.AddSchemaError("\"minProperties\" must be a number");
+				ctx.AddSchemaError("\"maxProperties\" must be a number");
 			}
 		}
 	}
-- 
2.43.0


From ce963cd1ccf42615c7dc6e410087aac1f56c94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:02 +0000
Subject: [PATCH 69/70] fix: report an output file that varsh cannot open

Listing keys or printing a length into a file that cannot be created
wrote nothing and still exited with success.
---
 src/varsh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index d96a64d..273d025 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -216,6 +216,10 @@ int main(int argc, char **argv) {
 	ostream *output = &cout;
 	if (state.conf.Contains("output")) {
 		output_file.open(state.conf["output"].AsString().c_str());
+		if (!output_file) {
+			cerr << "Unable to open " << state.conf["output"].AsString() << endl;
+			return 1;
+		}
 		output = &output_file;
 	}
 
-- 
2.43.0


From 97c8b242e166b871e53da5e05bfa3e0ae35ee40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:44:54 +0000
Subject: [PATCH 70/70] fix: report a blob operand as not convertible to a
 number

Arithmetic with a blob on the right hand side threw UnknownTypeError, which
is for corrupt values, instead of UnableToConvertError like any other value
that is not a number.
---
 src/Variant.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Variant.cc b/src/Variant.cc
index 51f4f6b..5405ef8 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -57,6 +57,7 @@ namespace libvariant {
 			case Variant::StringType:
 			case Variant::ListType:
 			case Variant::MapType:
+			case Variant::BlobType:
 				throw UnableToConvertError(t2, "a numeric type.");
 			default:
 				throw UnknownTypeError(t2);
@@ -74,6 +75,7 @@ namespace libvariant {
 			case Variant::StringType:
 			case Variant::ListType:
 			case Variant::MapType:
+			case Variant::BlobType:
 				throw UnableToConvertError(t2, "a numeric type.");
 			default:
 				throw UnknownTypeError(t2);
@@ -91,6 +93,7 @@ namespace libvariant {
 			case Variant::StringType:
 			case Variant::ListType:
 			case Variant::MapType:
+			case Variant::BlobType:
 				throw UnableToConvertError(t2, "a numeric type.");
 			default:
 				throw UnknownTypeError(t2);
@@ -100,6 +103,7 @@ namespace libvariant {
 		case Variant::StringType:
 		case Variant::ListType:
 		case Variant::MapType:
+		case Variant::BlobType:
 			throw UnableToConvertError(t1, "a numeric type.");
 		default:
 			throw UnknownTypeError(t1);
-- 
2.43.0

