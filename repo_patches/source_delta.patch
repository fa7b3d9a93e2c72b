From e7082088e8127551aa226e88c392015f40da60ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 01/48] fix: NULL archive in srcml_archive_free() and
 accessors, NULL processing instruction

---
 src/libsrcml/srcml_archive.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1e01848..0ec0576 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -107,6 +107,9 @@ const char* srcml_archive_error_string(const struct srcml_archive* archive) {
  */
 void srcml_archive_free(struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return;
+
     if (archive->translator) {
         delete archive->translator;
         archive->translator = nullptr;
@@ -126,9 +129,6 @@ void srcml_archive_free(struct srcml_archive* archive) {
         archive->reader = nullptr;
     }
 
-    if (archive == nullptr)
-        return;
-
     delete archive;
 }
 
@@ -300,6 +300,10 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
  * @param archive a srcml_archive
  */
 int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
+
+    if (archive == nullptr)
+        return 0;
+
     return (archive->options & SRCML_OPTION_ARCHIVE) == 0;
 }
 
@@ -308,6 +312,9 @@ int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
  */
 int srcml_archive_has_hash(const struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return 0;
+
     return (archive->options & SRCML_OPTION_HASH) != 0;
 }
 
@@ -504,7 +511,7 @@ int srcml_archive_register_namespace(struct srcml_archive* archive, const char*
  */
 int srcml_archive_set_processing_instruction(struct srcml_archive* archive, const char* target, const char* data) {
 
-    if (archive == nullptr)
+    if (archive == nullptr || target == nullptr || data == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     archive->processing_instruction = std::pair<std::string,std::string>(target, data);
@@ -763,7 +770,7 @@ const char* srcml_archive_get_uri_from_prefix(const struct srcml_archive* archiv
  */
 const char* srcml_archive_get_processing_instruction_target(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
+    return archive && archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
 }
 
 /**
@@ -774,7 +781,7 @@ const char* srcml_archive_get_processing_instruction_target(const struct srcml_a
  */
 const char* srcml_archive_get_processing_instruction_data(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
+    return archive && archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
 }
 
 /**
-- 
2.43.0


From 0ef06621a9ee0aa6dc5d06ee613e96c40c31e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 02/48] fix: srcml_archive_get_namespace_prefix() with position
 one past the end

---
 src/libsrcml/srcml_archive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 0ec0576..1748125 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -699,7 +699,7 @@ const char* srcml_archive_get_namespace_prefix(const struct srcml_archive* archi
     if (archive == nullptr)
         return nullptr;
 
-    if (pos > archive->namespaces.size())
+    if (pos >= archive->namespaces.size())
         return nullptr;
 
     return archive->namespaces[pos].prefix.c_str();
-- 
2.43.0


From 88d0bdf8ba0d9f03354470d108c1712316c7e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 03/48] fix: NULL transformation result and negative unit index

---
 src/libsrcml/srcml_transform.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index c416342..69405d0 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -769,6 +769,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
  */
 int srcml_transform_free(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
     for (auto unit : result->units) {
         srcml_unit_free(unit);
     }
@@ -784,7 +787,7 @@ int srcml_transform_free(struct srcml_transform_result* result) {
  */
 LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result) {
 
-    return result->type;
+    return result ? result->type : SRCML_RESULT_NONE;
 }
 
 /**
@@ -794,7 +797,7 @@ LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result
 int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
        return 0;
 
     return (int) result->units.size();
@@ -808,10 +811,10 @@ int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* result, int index) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
         return 0;
 
-    if (index >= (int) result->units.size())
+    if (index < 0 || index >= (int) result->units.size())
         return 0;
 
     return result->units[index];
@@ -824,7 +827,7 @@ struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* resul
 const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_STRING)
+    if (result == nullptr || result->type != SRCML_RESULT_STRING)
         return 0;
 
     if (!result->stringValue)
@@ -840,7 +843,7 @@ const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 double srcml_transform_get_number(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_NUMBER)
+    if (result == nullptr || result->type != SRCML_RESULT_NUMBER)
         return 0;
 
     if (!result->numberValue)
@@ -856,7 +859,7 @@ double srcml_transform_get_number(struct srcml_transform_result* result) {
 int srcml_transform_get_bool(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_BOOLEAN)
+    if (result == nullptr || result->type != SRCML_RESULT_BOOLEAN)
         return -1;
 
     if (!result->boolValue)
-- 
2.43.0


From f4584c938434744cf1e786b05c2149d2c42a4c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 04/48] fix: srcml_unit_apply_transforms() without a place for
 the result

---
 src/libsrcml/srcml_transform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 69405d0..302b9a2 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -568,7 +568,8 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         // if there are no results, then we can't apply further transformations
         // but there still might be results in the scalar values
         if (fullresults->nodeNr == 0) {
-            result->units.clear();
+            if (result)
+                result->units.clear();
             break;
         }
     }
-- 
2.43.0


From fb8b311740d161aa75cd9bc427a8f7f48361acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 05/48] fix: invalid XSLT stylesheet or RelaxNG schema ends the
 program

---
 src/libsrcml/relaxngTransformation.cpp |  7 ++++---
 src/libsrcml/srcml_transform.cpp       | 17 +++++++++++++++--
 src/libsrcml/xsltTransformation.cpp    | 15 ++++++++-------
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index fc9f286..633c4a2 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -21,6 +21,7 @@
  */
 
 #include <relaxngTransformation.hpp>
+#include <stdexcept>
 
 /**
  * relaxngTransformation
@@ -34,15 +35,15 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
 
     relaxng_parser_ctxt = decltype(relaxng_parser_ctxt)(xmlRelaxNGNewDocParserCtxt(relaxng));
     if (relaxng_parser_ctxt == nullptr)
-        throw;
+        throw std::invalid_argument("RelaxNG schema");
 
     rng = decltype(rng)(xmlRelaxNGParse(relaxng_parser_ctxt.get()));
     if (rng == nullptr)
-        throw;
+        throw std::invalid_argument("RelaxNG schema");
 
     rngctx = decltype(rngctx)(xmlRelaxNGNewValidCtxt(rng.get()));
     if (rngctx == nullptr)
-        throw;
+        throw std::invalid_argument("RelaxNG schema");
 }
 
 /**
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 302b9a2..0c7f7c6 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -191,7 +191,16 @@ static int srcml_append_transform_xslt_internal(srcml_archive* archive, std::uni
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new xsltTransformation(doc.release(), std::vector<std::string>())));
+    try {
+
+        std::unique_ptr<Transformation> transformation(new xsltTransformation(doc.get(), std::vector<std::string>()));
+
+        // the stylesheet owns the document
+        doc.release();
+
+        archive->transformations.push_back(std::move(transformation));
+
+    } catch (...) { return SRCML_STATUS_INVALID_ARGUMENT; }
 
     return SRCML_STATUS_OK;
 }
@@ -302,7 +311,11 @@ static int srcml_append_transform_relaxng_internal(srcml_archive* archive, xmlDo
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+    try {
+
+        archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+
+    } catch (...) { return SRCML_STATUS_INVALID_ARGUMENT; }
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 02a248d..d373caa 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -21,6 +21,7 @@
  */
 
 #include <xsltTransformation.hpp>
+#include <stdexcept>
 
 #include <libxml/parser.h>
 #include <libxml/parserInternals.h>
@@ -57,7 +58,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     libxslt_handle = dlopen_libxslt();
     if (!libxslt_handle) {
         fprintf(stderr, "Unable to open libxslt library\n");
-        throw;
+        throw std::invalid_argument("XSLT stylesheet");
     }
 
     char* error;
@@ -67,7 +68,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::invalid_argument("XSLT stylesheet");
     }
 
     dlerror();
@@ -75,7 +76,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::invalid_argument("XSLT stylesheet");
     }
 
     dlerror();
@@ -83,7 +84,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::invalid_argument("XSLT stylesheet");
     }
 
     dlerror();
@@ -91,7 +92,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::invalid_argument("XSLT stylesheet");
     }
 
     libexslt_handle = dlopen_libexslt();
@@ -103,7 +104,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     *(void **) (&exsltRegisterAll) = dlsym(libexslt_handle, "exsltRegisterAll");
     if ((error = dlerror()) != NULL) {
         dlclose(libexslt_handle);
-        throw;
+        throw std::invalid_argument("XSLT stylesheet");
     }
 #endif
 
@@ -113,7 +114,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     // parse the stylesheet
     stylesheet = xsltParseStylesheetDoc(xslt);
     if (!stylesheet)
-        throw;
+        throw std::invalid_argument("XSLT stylesheet");
 }
 
 /**
-- 
2.43.0


From 33caefd453a647ae5c2a701e2c6c48c700397ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 06/48] fix: srcml_archive_close() leaves the writer and reader
 of the closed archive behind

---
 src/libsrcml/srcml_archive.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1748125..902e845 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1346,8 +1346,12 @@ void srcml_archive_close(struct srcml_archive* archive) {
         srcml_archive_write_create_translator_xml_buffer(archive);
     }
 
+    // the translator also closes the output buffer
     if (archive->translator) {
         archive->translator->close();
+        delete archive->translator;
+        archive->translator = nullptr;
+        archive->output_buffer = nullptr;
     }
 
     if (archive->rawwrites && archive->output_buffer) {
@@ -1363,5 +1367,20 @@ void srcml_archive_close(struct srcml_archive* archive) {
         (*archive->buffer) = (char *) xmlBufferDetach(archive->xbuffer);
     }
 
+    // nothing of this use may remain, since the archive can be reopened (or closed again)
+    archive->buffer = nullptr;
+    archive->size = nullptr;
+    archive->rawwrites = false;
+
+    if (archive->xbuffer) {
+        xmlBufferFree(archive->xbuffer);
+        archive->xbuffer = nullptr;
+    }
+
+    if (archive->reader) {
+        delete archive->reader;
+        archive->reader = nullptr;
+    }
+
     archive->type = SRCML_ARCHIVE_INVALID;
 }
-- 
2.43.0


From 163da7c571db47dd8d77fcd458c087a022f7edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 07/48] fix: content cached from an earlier parse of the unit,
 and ' url=' inside an attribute value of the unit

---
 src/libsrcml/srcml_unit.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index d4b764d..8b82a8b 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -391,7 +391,7 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
         if (pos != std::string::npos) {
             // find url attribute
             std::string s(unit->srcml, 0, pos);
-            auto pos2 = s.find(" url=");
+            auto pos2 = s.find(" url=\"");
             if (pos2 != std::string::npos) {
                 insert_attr_begin = (int) pos2;
                 pos2 += 6;
@@ -1006,10 +1006,15 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     free(start_tag);
     free(srcml);
 
+    // the content is new, so nothing derived from previous content is valid
+    unit->srcml_revision = boost::none;
+    unit->srcml_fragment = boost::none;
+    unit->srcml_fragment_revision = boost::none;
+    unit->srcml_raw = boost::none;
+    unit->srcml_raw_revision = boost::none;
+
     // record the loc
-    if (!unit->src) {
-        unit->src = extract_src(unit->srcml);
-    }
+    unit->src = extract_src(unit->srcml);
 
     unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
     if (!unit->src->empty() && unit->src->back() != '\n')
-- 
2.43.0


From 981e7d42c0195da1ce42046ff4d3d22602ce1fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 08/48] fix: source with incomplete sequences at the end of a
 read, BOM split between reads, UTF-32LE BOM, or a UTF-8 BOM with another
 encoding

---
 src/parser/UTF8CharBuffer.cpp | 44 ++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index c45cf68..ae372b2 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -276,19 +276,24 @@ ssize_t UTF8CharBuffer::readChars() {
         // use the provided callback
         // the entire input buffer may not be available because of incomplete multi-byte sequences
         // from a previous read
-        ssize_t insize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + inbytesleft, raw.size() - inbytesleft) : 0;
-        if (insize == -1) {
-            fprintf(stderr, "Error reading: %s", strerror(errno));
-            return 0;
-        }
+        // the first read has to provide enough for the detection of any BOM
+        size_t rawsize = inbytesleft;
+        do {
+            ssize_t readsize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + rawsize, raw.size() - rawsize) : 0;
+            if (readsize == -1)
+                fprintf(stderr, "Error reading: %s", strerror(errno));
+            if (readsize <= 0)
+                break;
+            rawsize += readsize;
+        } while (firstRead && rawsize < 4);
 
         // EOF
-        if (insize == 0) {
+        if (rawsize == inbytesleft) {
             return 0;
         }
 
         // new size is the number of bytes read in, plus any incomplete multibyte sequences from previous
-        raw.resize(insize + inbytesleft);
+        raw.resize(rawsize);
     }
 
     // hash only the read data, not the inbytesleft (from previous call)
@@ -316,7 +321,7 @@ ssize_t UTF8CharBuffer::readChars() {
         if ((data.i & 0x00FFFFFF) == 0x00BFBBEF) {
 
             // a trivial conversion, so BOM (Byte Order Mark) for UTF-8 has to be manually skipped
-            pos += 3;
+            raw.erase(raw.begin(), raw.begin() + 3);
 
             // no encoding specified (by user) then UTF-8, otherwise check if it is compatible with UTF-8
             if (encoding.empty()) {
@@ -326,10 +331,13 @@ ssize_t UTF8CharBuffer::readChars() {
             }
         }
 
+        // UTF-32LE BOM starts with the UTF-16LE BOM
+        bool utf32bom = raw.size() >= 4 && (data.i == 0xFFFE0000 || data.i == 0x0000FEFF);
+
         // auto-detect UTF-16 based on BOM
         // both UTF-16LE and UTF-16BE are determined automatically from BOM
         // and processed as UTF-16
-        if ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF) {
+        if (!utf32bom && ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF)) {
 
             // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
             if (encoding.empty()) {
@@ -342,7 +350,7 @@ ssize_t UTF8CharBuffer::readChars() {
         // auto-detect UTF-32 based on BOM
         // both UTF-32LE and UTF-32BE are determined automatically from BOM
         // and processed as UTF-32
-        if (data.i == 0xFFFE0000 || data.i == 0xFEFF0000) {
+        if (utf32bom) {
 
             // no encoding specified (by user) then UTF-32, otherwise check if it is compatible with UTF-32
             if (encoding.empty()) {
@@ -391,10 +399,12 @@ ssize_t UTF8CharBuffer::readChars() {
 
         // convert from raw characters to cooked, encoded in UTF-8 characters
         size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
-        if (binsize == (size_t) -1) {
+
+        // an incomplete multibyte sequence at the end of the buffer (EINVAL) is not an error,
+        // as the rest of the sequence is in the next read
+        bool invalid = binsize == (size_t) -1 && errno != EINVAL;
+        if (invalid)
             fprintf(stderr, "%s\n", strerror(errno));
-            return 0;
-        }
 
         // number of bytes cooked is the total size minus the bytes that were "left", i.e., not used, by iconv()
         cooked.resize(cooked.size() - outbytesleft);
@@ -404,6 +414,12 @@ ssize_t UTF8CharBuffer::readChars() {
         // so just move all of them to the start of the buffer
         if (inbytesleft)
             std::move(linbuf, linbuf + inbytesleft, raw.begin());
+
+        // nothing to use yet, so need more input
+        if (!invalid && cooked.empty() && sio.read_callback) {
+            insize = 0;
+            return readChars();
+        }
     }
 
     return trivial ? raw.size() : cooked.size();
@@ -483,7 +499,7 @@ const std::string& UTF8CharBuffer::getEncoding() const {
  * place in buffer if requested.
  */
 UTF8CharBuffer::~UTF8CharBuffer() {
-    if(sio.context) {
+    if(sio.context && sio.close_callback) {
         sio.close_callback(sio.context);
     }
 
-- 
2.43.0


From 69ffa0fb287688919aa468a810e57fdb3a396caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 09/48] fix: source encoding of a unit parsed from a file,
 FILE, file descriptor, or callback is not recorded

---
 src/parser/UTF8CharBuffer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index ae372b2..f217215 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -156,6 +156,9 @@ UTF8CharBuffer::UTF8CharBuffer(const char* ifilename, const char* encoding, bool
         delete static_cast<Context<int>*>(context);
         return close(fd);
     };
+
+    // read the first data, as the encoding may depend on it
+    insize = readChars();
 }
 
 /**
@@ -212,6 +215,9 @@ UTF8CharBuffer::UTF8CharBuffer(FILE* file, const char* encoding, bool hashneeded
             return (size_t) result;
     };
     sio.close_callback = [](void*) -> int { return 0; };
+
+    // read the first data, as the encoding may depend on it
+    insize = readChars();
 }
 
 /**
@@ -237,6 +243,9 @@ UTF8CharBuffer::UTF8CharBuffer(int fd, const char* encoding, bool hashneeded, bo
         delete static_cast<Context<int>*>(context);
         return 0;
     };
+
+    // read the first data, as the encoding may depend on it
+    insize = readChars();
 }
 
 /**
@@ -258,6 +267,9 @@ UTF8CharBuffer::UTF8CharBuffer(void* context, srcml_read_callback read_callback,
     sio.context = context;
     sio.read_callback = read_callback;
     sio.close_callback = close_callback;
+
+    // read the first data, as the encoding may depend on it
+    insize = readChars();
 }
 
 /**
-- 
2.43.0


From 2eb4aad15630790e44c416fe02a282e54f6281df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 10/48] fix: text after the last tag is missing from the
 revision of a srcDiff unit

---
 src/libsrcml/unit_utilities.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index a3ca02e..0c9bdc5 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -92,6 +92,10 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
 
         // skip to end of tag
         p = (const char*) memchr(p, '>', size - (p - srcml));
+        if (p == nullptr) {
+            lp = srcml + size;
+            break;
+        }
         ++p;
 
         if (strncmp(sp + 1, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
@@ -107,7 +111,8 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
             }
         }
         else if (*(sp + 1) == '/' && strncmp(sp + 2, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
-            mode.pop();
+            if (mode.size() > 1)
+                mode.pop();
         }
         else {
             if (inmode && !text_only)
@@ -117,6 +122,11 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
         lp = p;
     }
 
+    // output any text after the last tag
+    bool inmode = mode.top() == COMMON || (revision == 0 && mode.top() == DELETE) || (revision == 1 && mode.top() == INSERT);
+    if (inmode)
+        news.append(lp, size - (lp - srcml));
+
     return news;
 }
 
-- 
2.43.0


From fce1586d0233df5b36bf13fbdc04bd0418df8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 11/48] fix: srcml_unit_parse_filename() leaves the source file
 open

---
 src/libsrcml/srcml_unit.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 8b82a8b..0791b2f 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -564,10 +564,14 @@ int srcml_unit_parse_filename(struct srcml_unit* unit, const char* src_filename)
         return SRCML_STATUS_IO_ERROR;
     }
 
-    return srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
+    int status = srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
 
         return new UTF8CharBuffer(src_fd, encoding, output_hash, hash);
     });
+
+    CLOSE(src_fd);
+
+    return status;
 }
 
 /**
-- 
2.43.0


From 8088a28337b176d74517ecbc01c43f343113a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 12/48] fix: size of source from srcml_unit_unparse_memory()
 stops at the first null byte, e.g., for UTF-16

---
 src/libsrcml/srcml_unit.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 0791b2f..b38dc7e 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -784,10 +784,12 @@ int srcml_unit_unparse_memory(struct srcml_unit* unit, char** src_buffer, size_t
     if (status != SRCML_STATUS_OK)
         return status;
 
+    // source in encodings such as UTF-16 contains null characters
+    *src_size = (size_t) xmlBufferLength(buffer);
+
     (*src_buffer) = (char *) xmlBufferDetach(buffer);
     if (!(*src_buffer))
         return SRCML_STATUS_ERROR;
-    *src_size = strlen(*src_buffer);
 
     xmlBufferFree(buffer);
 
-- 
2.43.0


From fb575ad2e92d18cb9009d6dc5705e851f6821a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 13/48] fix: srcml_archive_write_open_filename() reports
 success when the file cannot be opened

---
 src/libsrcml/srcml_archive.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 902e845..1ea859d 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -926,6 +926,8 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
 
     archive->type = SRCML_ARCHIVE_WRITE;
     archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
+    if (archive->output_buffer == nullptr)
+        return SRCML_STATUS_IO_ERROR;
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From a24489a90fa2f7017cb077c4b9ebf3b5c08e7798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 14/48] fix: archive written to a FILE, file descriptor, or
 callback is encoded twice, e.g., two BOMs for UTF-16

---
 src/libsrcml/srcml_archive.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1ea859d..10d6c6e 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -977,7 +977,7 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
 
     archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, 0);
 
     return SRCML_STATUS_OK;
 }
@@ -999,7 +999,7 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
 
     archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, 0);
 
     return SRCML_STATUS_OK;
 }
@@ -1024,7 +1024,7 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
 
     archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, 0);
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From 65b416591b627b02a0f1d5017bfcc02588ac289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 15/48] fix: value of the tabs attribute of the unit is used
 after it is destroyed

---
 src/parser/srcMLOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index bb97f32..5677fc0 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -329,6 +329,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
 
     // setup for tabs if used
     std::string tabattribute;
+    std::string tabvalue = std::to_string(tabsize);
     if (isoption(options, SRCML_OPTION_POSITION)) {
         tabattribute = namespaces[POS].getPrefix();
         if (!tabattribute.empty())
@@ -369,7 +370,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         { UNIT_ATTRIBUTE_VERSION, version },
 
         // position tab setting
-        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? std::to_string(tabsize).c_str() : 0 },
+        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? tabvalue.c_str() : 0 },
 
         // timestamp attribute
         { UNIT_ATTRIBUTE_TIMESTAMP, timestamp },
-- 
2.43.0


From 8a145aa8b50ae00788e1c941ef4200dc5a1feb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 16/48] fix: position option and position prefix of the first
 parse in a thread are used for all later ones

---
 src/parser/srcMLOutput.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 5677fc0..95ee434 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -502,9 +502,9 @@ void srcMLOutput::addPosition(const antlr::RefToken& token) {
     if (stoken->endline < stoken->getLine() || (stoken->endline == stoken->getLine() && stoken->endcolumn < stoken->getColumn()))
             return;
 
-    thread_local const std::string& prefix = namespaces[POS].prefix;
-    thread_local const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
-    thread_local const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
+    const std::string& prefix = namespaces[POS].prefix;
+    const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
+    const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
 
     // highly optimized as this is output for every start tag
 
@@ -536,7 +536,7 @@ void srcMLOutput::processToken(const antlr::RefToken& token, const char* name, c
     if (name[0] == 0)
         return;
 
-    thread_local bool isposition = isoption(options, SRCML_OPTION_POSITION);
+    const bool isposition = isoption(options, SRCML_OPTION_POSITION);
 
     if (isstart(token) || isempty(token)) {
 
-- 
2.43.0


From 6f84de36f398319ca075052f865fc0f6bc58d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 17/48] fix: source with a DEL character outside of comments
 and strings is dropped

---
 src/parser/TextLexer.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 604d049..a4f52c4 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -217,6 +217,7 @@ CONTROL_CHAR :
     (
         '\000'..'\010' |
         '\013'..'\014' |
-        '\016'..'\037'
+        '\016'..'\037' |
+        '\177'
     )
 ;
-- 
2.43.0


From 0c89943916af36716c1b27709468761f545a61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 18/48] fix: srcml_archive_set_options() also clears the
 private options, so that the archive is no longer an archive and parsing
 crashes

---
 src/libsrcml/srcml_archive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 10d6c6e..fbdf6b7 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -291,7 +291,8 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
 
     int modoption = options % (1<<7);
 
-    archive->options = modoption;
+    // only replace the public options, as the private options are not part of the parameter
+    archive->options = (archive->options & ~(unsigned long long)((1<<7) - 1)) | modoption;
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From 8634014639acd157b14fe204ab8c4bc338e0dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 19/48] fix: tab stop is ignored in comments and strings, so
 that the positions after a tab in them are wrong

---
 src/libsrcml/srcml_translator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 2977be6..ab23464 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -133,6 +133,7 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // pure block comment lexer
         CommentTextLexer textlexer(lexer.getInputState());
         textlexer.setSelector(&selector);
+        textlexer.setTabsize((int)tabsize);
 
         // switching between lexers
         selector.addInputStream(&lexer, "main");
-- 
2.43.0


From ceb7c88afa22be1acb5bad97919e4e410d749b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 20/48] fix: tab stop of 0, or one larger than an int, is
 accepted and parsing a tab divides by zero

---
 src/libsrcml/srcml_archive.cpp        | 4 +++-
 src/libsrcml/srcml_reader_handler.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index fbdf6b7..2630775 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -24,6 +24,7 @@
 #include <srcml_translator.hpp>
 #include <srcml_sax2_reader.hpp>
 #include <libxml/encoding.h>
+#include <limits>
 
 /**
  * srcml_archive_check_extension
@@ -431,7 +432,8 @@ int srcml_archive_disable_option(struct srcml_archive* archive, size_t option) {
  */
 int srcml_archive_set_tabstop(struct srcml_archive* archive, size_t tabstop) {
 
-    if (archive == nullptr)
+    // column calculation divides by the tabstop, and uses an int for it
+    if (archive == nullptr || tabstop == 0 || tabstop > (size_t) std::numeric_limits<int>::max())
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     archive->tabstop = tabstop;
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 721c8b1..ca92d7e 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -275,7 +275,7 @@ public :
             else if (attribute == "version")
                 srcml_archive_set_version(archive, value.c_str());
             else if (attribute == "tabs")
-                archive->tabstop = atoi(value.c_str());
+                srcml_archive_set_tabstop(archive, atoi(value.c_str()));
             else if (attribute == "options") {
 
                 while(!value.empty()) {
-- 
2.43.0


From 028d9c6ad1c77fbda8f723bc9b53f85f2c4aa193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 21/48] fix: LOC of a read unit counts the lines of all its
 source

---
 src/libsrcml/srcml_reader_handler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index ca92d7e..8470efe 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -38,6 +38,7 @@
 #include <vector>
 #include <stack>
 
+#include <algorithm>
 #include <cstring>
 
 #include <mutex>
@@ -447,6 +448,8 @@ public :
 
         if (collect_unit_body) {
 
+            // lines of the source of this unit, even when its start was processed before the unit was started
+            state->loc = (int) std::count(state->unitsrc.begin(), state->unitsrc.end(), '\n');
             if (!state->unitsrc.empty() && state->unitsrc.back() != '\n')
                 ++state->loc;
 
-- 
2.43.0


From 937c36d1462dee442c64d252d8be6f5e6e3ab206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 22/48] fix: reading long non-ASCII text does not read before
 the XML input buffer

---
 src/libsrcml/sax2_srcsax_handler.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index e2ca856..492952b 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -620,12 +620,6 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
     if (state->collect_unit_body) {
 
-        // end previous start element
-        if (state->base[0] == '>') {
-            state->unitsrcml.append(1, '>');
-            state->base += 1;
-        }
-
         auto srcmllen = ctxt->input->cur - state->base;
         if (srcmllen < 0) {
             return;
@@ -650,6 +644,12 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
     }
     state->base = ctxt->input->cur;
 
+    // complete the start tag now, as its '>' may not be in the input buffer by the next event
+    if (state->collect_unit_body && state->base[0] == '>') {
+        state->unitsrcml.append(1, '>');
+        state->base += 1;
+    }
+
     SRCSAX_DEBUG_END(localname);
 }
 
@@ -782,12 +782,6 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
 
     update_ctx(ctx);
 
-    // end previous start element
-    if (state->base[0] == '>') {
-        state->unitsrcml.append(1, '>');
-        state->base += 1;
-    }
-
     // libxml2 handles things in the background differently for whitespace and escaped characters
     // using a different buffer. For POS (Plain Old Strings), it uses the original buffer
     if (state->base == ctxt->input->cur) {
@@ -798,6 +792,12 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
         // libxml2 passes ctxt->input->cur as ch, so then must increment to len
         state->base = ctxt->input->cur + len;
 
+    } else if (state->base < ctxt->input->base) {
+
+        // libxml2 discarded the start of this text from the input buffer
+        state->unitsrcml.append((const char*) ch, len);
+        state->base += len;
+
     } else {
 
         // whitespace and escaped characters
-- 
2.43.0


From 34409389048199bb30870a8dad85711ebfde3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 23/48] fix: a source buffer that cannot be constructed does
 not call an uninitialised close callback

---
 src/parser/UTF8CharBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/UTF8CharBuffer.hpp b/src/parser/UTF8CharBuffer.hpp
index 665efa4..819da7f 100644
--- a/src/parser/UTF8CharBuffer.hpp
+++ b/src/parser/UTF8CharBuffer.hpp
@@ -180,7 +180,7 @@ private:
     int trivial = false;
 
     /** contacts and callbacks for read and close */
-    srcMLIO sio;
+    srcMLIO sio = { 0, 0, 0 };
 
     /** first time reading data */
     bool firstRead = true;
-- 
2.43.0


From 3c2a078a3450e4453a92fa1eaed0f5854dc3ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 24/48] fix: reading an archive hangs when another archive is
 opened for reading

---
 src/libsrcml/sax2_srcsax_handler.cpp | 20 +++++++-------------
 src/libsrcml/sax2_srcsax_handler.hpp |  6 ++++++
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 492952b..3899d91 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -48,12 +48,6 @@
     #define SRCSAX_DEBUG_END_CHARS(ch,len)
 #endif
 
-// libxml2 places elements into a dictionary
-// once initialized, can compare pointers instead of strings
-static const xmlChar* UNIT_ENTRY = nullptr;
-static const xmlChar* MACRO_LIST_ENTRY = nullptr;
-static const xmlChar* ESCAPE_ENTRY = nullptr;
-
 /**
  * factory
  *
@@ -191,9 +185,9 @@ void start_document(void* ctx) {
     SRCSAX_DEBUG_START("");
 
     // save for dictionary lookup of common elements
-    UNIT_ENTRY       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
-    MACRO_LIST_ENTRY = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
-    ESCAPE_ENTRY     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
+    state->unit_entry       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
+    state->macro_list_entry = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
+    state->escape_entry     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
 
     // save the encoding from the input
     state->context->encoding = "UTF-8";
@@ -373,7 +367,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
 
     // if macros are found, then must return, process first
     // but stay in first_start_element, since this can be between root unit and nested unit
-    if (localname == MACRO_LIST_ENTRY) {
+    if (localname == state->macro_list_entry) {
 
         state->context->handler->meta_tag(state->context, (const char*) localname, (const char*) prefix, (const char*) URI,
                                           nb_namespaces, namespaces, nb_attributes, attributes);
@@ -381,7 +375,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
     }
 
     // archive when the first element after the root is <unit>
-    state->context->is_archive = (localname == UNIT_ENTRY);
+    state->context->is_archive = (localname == state->unit_entry);
 
     // turn off first_start_element() handling
     ctxt->sax->startElementNs = &start_element;
@@ -633,7 +627,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == ESCAPE_ENTRY) {
+        if (localname == state->escape_entry) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
@@ -697,7 +691,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
     SRCSAX_DEBUG_END(localname);
 
     // plain end element
-    if (localname != UNIT_ENTRY) {
+    if (localname != state->unit_entry) {
         return;
     }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index c515197..186bf38 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -96,6 +96,12 @@ struct sax2_srcsax_handler {
     boost::optional<std::string> cpp_prefix;
 
     bool rootcalled = false;
+
+    // libxml2 places elements into a dictionary, one for each parse
+    // once initialized, can compare pointers instead of strings
+    const xmlChar* unit_entry = nullptr;
+    const xmlChar* macro_list_entry = nullptr;
+    const xmlChar* escape_entry = nullptr;
 };
 
 /**
-- 
2.43.0


From ddcee90235a095685cdde0c492c9e0fa44de21fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:58 +0000
Subject: [PATCH 25/48] fix: namespace URI of the archive with '&', '<' or '"'
 makes the units read from it ill-formed

---
 src/libsrcml/sax2_srcsax_handler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 3899d91..8b2cf92 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -298,7 +298,11 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
                 state->rootnsstr += (const char*) namespaces[i];
             }
             state->rootnsstr += "=\"";
-            state->rootnsstr += (const char*) namespaces[i + 1];
+            // the URI has any entities replaced
+            if (xmlChar* uri = xmlEncodeSpecialChars(nullptr, namespaces[i + 1])) {
+                state->rootnsstr += (const char*) uri;
+                xmlFree(uri);
+            }
             state->rootnsstr += "\" ";
         }
     }
-- 
2.43.0


From ba0e4498ce6f9531ad8a4ea7a3862e1560724539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 26/48] fix: '&' in attributes and namespace URIs is read as
 '&#38;' from a srcML document

---
 src/libsrcml/sax2_srcsax_handler.cpp | 1 +
 src/libsrcml/srcsax_controller.cpp   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 8b2cf92..6dc1378 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -149,6 +149,7 @@ static int reparse_root(void* ctx) {
     context->_private = state;
     auto save_sax = context->sax;
     context->sax = &roottagsax;
+    context->replaceEntities = 1;
 
     state->rootcalled = true;
 
diff --git a/src/libsrcml/srcsax_controller.cpp b/src/libsrcml/srcsax_controller.cpp
index 332c5b0..328af88 100644
--- a/src/libsrcml/srcsax_controller.cpp
+++ b/src/libsrcml/srcsax_controller.cpp
@@ -158,7 +158,7 @@ xmlParserCtxtPtr srcsax_create_parser_context(xmlParserInputBufferPtr buffer_inp
     if (ctxt == 0)
         return 0;
 
-    xmlCtxtUseOptions(ctxt, XML_PARSE_COMPACT | XML_PARSE_HUGE | XML_PARSE_NODICT);
+    xmlCtxtUseOptions(ctxt, XML_PARSE_COMPACT | XML_PARSE_HUGE | XML_PARSE_NODICT | XML_PARSE_NOENT);
 
     xmlParserInputPtr input = xmlNewIOInputStream(ctxt, buffer_input, enc);
     if (input == 0) {
-- 
2.43.0


From 78050c63924ee544ef8b66cbdc3d773d218c3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 27/48] fix: parameters and attributes added to the
 transformations of an archive change those of its clones

---
 src/libsrcml/Transformation.hpp        | 21 +++++++++++++++++++--
 src/libsrcml/relaxngTransformation.cpp |  2 +-
 src/libsrcml/relaxngTransformation.hpp |  2 +-
 src/libsrcml/srcml_transform.cpp       | 20 ++++++++++----------
 src/libsrcml/srcml_types.hpp           |  2 +-
 src/libsrcml/xpathTransformation.cpp   |  2 +-
 src/libsrcml/xpathTransformation.hpp   |  2 +-
 src/libsrcml/xsltTransformation.cpp    |  8 ++++----
 src/libsrcml/xsltTransformation.hpp    |  2 +-
 9 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/libsrcml/Transformation.hpp b/src/libsrcml/Transformation.hpp
index 5c1385b..39bed5d 100644
--- a/src/libsrcml/Transformation.hpp
+++ b/src/libsrcml/Transformation.hpp
@@ -54,16 +54,33 @@ public :
 
     /**
      * apply
+     * @param doc the document to transform
+     * @param position the position of the unit
+     * @param parameters names and values of the XSLT parameters
      *
      * Apply transformation to doc, and returning new doc
      *
      * @returns document on success, NULL on failure.
      */
-    virtual TransformationResult apply(xmlDocPtr doc, int position) const = 0;
+    virtual TransformationResult apply(xmlDocPtr doc, int position, const std::vector<std::string>& parameters) const = 0;
 
     virtual ~Transformation() {}
+};
+
+/**
+ * ArchiveTransformation
+ *
+ * A transformation of an archive. The transformation is shared with the clones
+ * of the archive, the parameters are not.
+ */
+struct ArchiveTransformation {
+
+    ArchiveTransformation(std::unique_ptr<Transformation> transformation)
+        : transformation(std::move(transformation)) {}
+
+    std::shared_ptr<const Transformation> transformation;
 
-      /** XSLT parameters */
+    /** XSLT parameters */
     std::vector<std::string> xsl_parameters;
 };
 
diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index 633c4a2..2cbb5c5 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -53,7 +53,7 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
  *
  * @returns true on success false on failure.
  */
-TransformationResult relaxngTransformation::relaxngTransformation::apply(xmlDocPtr doc, int /* position */) const {
+TransformationResult relaxngTransformation::relaxngTransformation::apply(xmlDocPtr doc, int /* position */, const std::vector<std::string>& /* parameters */) const {
 
     // 0 means it validated
     int n = xmlRelaxNGValidateDoc(rngctx.get(), doc);
diff --git a/src/libsrcml/relaxngTransformation.hpp b/src/libsrcml/relaxngTransformation.hpp
index 2a0d665..4c0b63f 100644
--- a/src/libsrcml/relaxngTransformation.hpp
+++ b/src/libsrcml/relaxngTransformation.hpp
@@ -60,7 +60,7 @@ public :
      *
      * @returns true on success false on failure.
      */
-    virtual TransformationResult apply(xmlDocPtr doc, int position) const;
+    virtual TransformationResult apply(xmlDocPtr doc, int position, const std::vector<std::string>& parameters) const;
 
 private :
     std::unique_ptr<xmlRelaxNGValidCtxt> rngctx;
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 0c7f7c6..949ec2f 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -134,13 +134,13 @@ int srcml_append_transform_xpath_attribute(struct srcml_archive* archive, const
 
     // attribute for a previous Xpath where the attribute is blank is appended on
     if (!archive->transformations.empty()) {
-        auto p = dynamic_cast<xpathTransformation*>(archive->transformations.back().get());
+        auto p = dynamic_cast<const xpathTransformation*>(archive->transformations.back().transformation.get());
         if (p && p->xpath == xpath_string && p->attr_prefix.empty() && p->attr_uri.empty() && p->attr_name.empty() && p->attr_value.empty()) {
 
-            p->attr_prefix = prefix;
-            p->attr_uri = namespace_uri;
-            p->attr_name = attr_name;
-            p->attr_value = attr_value;
+            // replace, as the transformation may be shared with a clone of the archive
+            auto element_uri = p->element_ns ? p->uri.c_str() : nullptr;
+            archive->transformations.back().transformation.reset(new xpathTransformation(archive, xpath_string,
+                p->prefix.c_str(), element_uri, p->element.c_str(), prefix, namespace_uri, attr_name, attr_value));
 
             return SRCML_STATUS_OK;
         }
@@ -427,8 +427,8 @@ int srcml_append_transform_param(srcml_archive* archive, const char* xpath_param
     if (archive->transformations.size() == 0)
         return SRCML_STATUS_NO_TRANSFORMATION;
 
-    archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
-    archive->transformations.back()->xsl_parameters.push_back(xpath_param_value);
+    archive->transformations.back().xsl_parameters.push_back(xpath_param_name);
+    archive->transformations.back().xsl_parameters.push_back(xpath_param_value);
 
     return SRCML_STATUS_OK;
 }
@@ -450,13 +450,13 @@ int srcml_append_transform_stringparam(srcml_archive* archive, const char* xpath
     if (archive->transformations.size() == 0)
         return SRCML_STATUS_NO_TRANSFORMATION;
 
-    archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
+    archive->transformations.back().xsl_parameters.push_back(xpath_param_name);
 
     std::string parenvalue = "\"";
     parenvalue += xpath_param_value;
     parenvalue += "\"";
 
-    archive->transformations.back()->xsl_parameters.push_back(parenvalue);
+    archive->transformations.back().xsl_parameters.push_back(parenvalue);
 
     return SRCML_STATUS_OK;
 }
@@ -561,7 +561,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
             xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
 
-            lastresult = trans->apply(curdoc.get(), 0);
+            lastresult = trans.transformation->apply(curdoc.get(), 0, trans.xsl_parameters);
             std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
             if (results == nullptr)
                 break;
diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 2b4ecd9..c2a4621 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -149,7 +149,7 @@ struct srcml_archive {
     /** a srcMLReader for reading */
     srcml_sax2_reader* reader = nullptr;
 
-    std::vector<std::shared_ptr<Transformation>> transformations;
+    std::vector<ArchiveTransformation> transformations;
 
     /** srcDiff revision number */
     boost::optional<size_t> revision_number;
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index cbaf66b..143ddd8 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -254,7 +254,7 @@ xmlXPathContextPtr xpathTransformation::createContext(xmlDocPtr doc) const {
  *
  * @returns true on success false on failure.
  */
-TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) const {
+TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position, const std::vector<std::string>& parameters) const {
 
     std::unique_ptr<xmlXPathContext> context(createContext(doc));
     if (!context) {
diff --git a/src/libsrcml/xpathTransformation.hpp b/src/libsrcml/xpathTransformation.hpp
index b9fa954..2bd1494 100644
--- a/src/libsrcml/xpathTransformation.hpp
+++ b/src/libsrcml/xpathTransformation.hpp
@@ -135,7 +135,7 @@ public :
      *
      * @returns true on success false on failure.
      */
-    virtual TransformationResult apply(xmlDocPtr doc, int position) const;
+    virtual TransformationResult apply(xmlDocPtr doc, int position, const std::vector<std::string>& parameters) const;
 
     void addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPtr result_nodes) const;
 
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index d373caa..cbca58d 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -141,12 +141,12 @@ xsltTransformation::~xsltTransformation() {
  *
  * @returns true on success false on failure.
  */
-TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */) const {
+TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */, const std::vector<std::string>& parameters) const {
 
     // convert to c-array of c-strings, null terminated
-    std::vector<const char*> cparams(xsl_parameters.size() + 1);
-    for (size_t i = 0; i < xsl_parameters.size(); ++i) {
-        cparams[i] = xsl_parameters[i].c_str();
+    std::vector<const char*> cparams(parameters.size() + 1);
+    for (size_t i = 0; i < parameters.size(); ++i) {
+        cparams[i] = parameters[i].c_str();
     }
     cparams.back() = 0;
 
diff --git a/src/libsrcml/xsltTransformation.hpp b/src/libsrcml/xsltTransformation.hpp
index 16e6aba..5985cce 100644
--- a/src/libsrcml/xsltTransformation.hpp
+++ b/src/libsrcml/xsltTransformation.hpp
@@ -88,7 +88,7 @@ public :
      *
      * @returns true on success false on failure.
      */
-    virtual TransformationResult apply(xmlDocPtr doc, int position) const;
+    virtual TransformationResult apply(xmlDocPtr doc, int position, const std::vector<std::string>& parameters) const;
 
 private :
     xsltStylesheetPtr stylesheet = nullptr;
-- 
2.43.0


From a4fec30d286de74b6c70bd1984c4569d69bbe774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:01 +0000
Subject: [PATCH 28/48] fix: crash when an element is added around a unit or an
 attribute in an XPath result

---
 src/libsrcml/xpathTransformation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 143ddd8..fe1ec55 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -366,6 +366,10 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
 
         xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
+        // attributes, namespaces, and the document can not be put inside an element
+        if (onode->type == XML_ATTRIBUTE_NODE || onode->type == XML_NAMESPACE_DECL || onode->type == XML_DOCUMENT_NODE)
+            continue;
+
         // set up node to insert
         xmlNodePtr element_node = xmlNewNode(element_ns, (const xmlChar*) element.c_str());
 
@@ -387,6 +391,8 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
             element_node->parent = onode;
             element_node->next = 0;
             element_node->prev = 0;
+            for (auto child = element_node->children; child; child = child->next)
+                child->parent = element_node;
             onode->children = element_node;
             onode->last = element_node;
         }
-- 
2.43.0


From 479107c5b0021a463aa525b53d10d0017262b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:27 +0000
Subject: [PATCH 29/48] fix: results of an XSLT transformation applied to
 several results are used after they are freed

---
 src/libsrcml/srcml_transform.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 949ec2f..b0df3a2 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -547,6 +547,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     // final result of all applied transformations
     TransformationResult lastresult;
     std::shared_ptr<xmlDoc> curdoc(doc);
+
+    // all documents produced, as the results may be nodes of any of them
+    std::vector<std::shared_ptr<xmlDoc>> docs;
     for (const auto& trans : archive->transformations) {
 
         // preserve the fullresults to iterate through
@@ -562,6 +565,8 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
 
             lastresult = trans.transformation->apply(curdoc.get(), 0, trans.xsl_parameters);
+            if (lastresult.doc)
+                docs.push_back(lastresult.doc);
             std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
             if (results == nullptr)
                 break;
-- 
2.43.0


From eca8014a8984709bcf941a221720c2f9d5609114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 30/48] fix: archive stays open for writing after its file
 could not be created

---
 src/libsrcml/srcml_archive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 2630775..87b111c 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -927,11 +927,12 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
     archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
     if (archive->output_buffer == nullptr)
         return SRCML_STATUS_IO_ERROR;
 
+    archive->type = SRCML_ARCHIVE_WRITE;
+
     return SRCML_STATUS_OK;
 }
 
-- 
2.43.0


From 0ce08e997d707a5349a6d58803cd00f7f4092d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 31/48] fix: processing instruction of an archive is lost when
 the archive is read

---
 src/libsrcml/cppCallbackAdapter.hpp  |  1 +
 src/libsrcml/sax2_srcsax_handler.cpp |  6 +++++-
 src/libsrcml/srcsax_handler.hpp      | 10 ++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/cppCallbackAdapter.hpp b/src/libsrcml/cppCallbackAdapter.hpp
index 59ca6d1..3de0894 100644
--- a/src/libsrcml/cppCallbackAdapter.hpp
+++ b/src/libsrcml/cppCallbackAdapter.hpp
@@ -60,6 +60,7 @@ public:
         handler.end_root = end_root;
         handler.end_unit = end_unit;
         handler.meta_tag = meta_tag;
+        handler.processing_instruction = processing_instruction;
 
         return handler;
     }
diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 6dc1378..7f1253f 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -891,7 +891,7 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
  * Called when a processing instruction has been parsed.
  * Immediately calls supplied handlers function.
  */
-void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlChar* /* data */) {
+void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* data) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -904,6 +904,10 @@ void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlCha
 
     SRCSAX_DEBUG_START("");
 
+    // processing instruction of the archive, i.e., before the root unit
+    if (state->mode == START)
+        state->context->handler->processing_instruction(state->context, (const char*) target, data ? (const char*) data : "");
+
     if (state->collect_unit_body) {
 
         state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
diff --git a/src/libsrcml/srcsax_handler.hpp b/src/libsrcml/srcsax_handler.hpp
index a7de24a..dd01903 100644
--- a/src/libsrcml/srcsax_handler.hpp
+++ b/src/libsrcml/srcsax_handler.hpp
@@ -120,6 +120,16 @@ struct srcsax_handler {
     void (*meta_tag)(srcsax_context* context, const char* localname, const char* prefix, const char* URI,
                            int num_namespaces, const xmlChar** namespaces, int num_attributes,
                            const xmlChar** attributes);
+
+    /**
+     * processing_instruction
+     * @param context a srcSAX context
+     * @param target the processing instruction target.
+     * @param data the processing instruction data.
+     *
+     * Signature for srcSAX handler function for a processing instruction before the root element.
+     */
+    void (*processing_instruction)(srcsax_context* context, const char* target, const char* data);
 };
 
 #endif
-- 
2.43.0


From f0942e06e468ef381aa49e2b8c5b45b8bac4d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 32/48] fix: macros are duplicated when an archive object is
 used to read again

---
 src/libsrcml/srcml_reader_handler.hpp |  3 +--
 src/libsrcml/srcml_types.hpp          | 11 +++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 8470efe..9801ac3 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -526,8 +526,7 @@ public :
 
             if (token != "" && type != "") {
 
-                archive->user_macro_list.push_back(token);
-                archive->user_macro_list.push_back(type);
+                srcml_archive_register_macro(archive, token.c_str(), type.c_str());
             }
 
         }
diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index c2a4621..a15acaa 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -253,6 +253,17 @@ struct srcml_unit {
  */
 int srcml_unit_set_hash (struct srcml_unit* unit, const char* hash);
 
+/**
+ * Register a macro (token) to be processed as a special type
+ * Note: Not publicly available, so declared here instead of srcml.h
+ * @param archive A srcml_archive
+ * @param token Name of the macro
+ * @param type Type of the macro
+ * @retval SRCML_STATUS_OK on success
+ * @retval SRCML_STATUS_INVALID_ARGUMENT
+ */
+int srcml_archive_register_macro(struct srcml_archive* archive, const char* token, const char* type);
+
 // helper conversions for boost::optional<std::string>
 inline const char* optional_to_c_str(const boost::optional<std::string>& s) {
     return s ? s->c_str() : 0;
-- 
2.43.0


From 703b9494e411c41cb28f2d2dda740b9608548e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:48 +0000
Subject: [PATCH 33/48] fix: duplicate source encoding attribute when a unit
 that was read is written with SRCML_OPTION_STORE_ENCODING

---
 src/parser/srcMLOutput.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 95ee434..b4e3926 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -337,6 +337,13 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         tabattribute += "tabs";
     }
 
+    // units that were read have the source encoding in their attributes
+    bool hasencoding = false;
+    for (std::vector<std::string>::size_type pos = 0; pos < attributes.size(); pos += 2) {
+        if (attributes[pos] == UNIT_ATTRIBUTE_SOURCE_ENCODING)
+            hasencoding = true;
+    }
+
     // setup for storing options in output
     std::array<std::pair<int, const char*>, 4> sep = {{
         { SRCML_OPTION_CPP_TEXT_ELSE,  "CPP_TEXT_ELSE" },
@@ -379,7 +386,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         { UNIT_ATTRIBUTE_HASH, hash },
 
         // source encoding attribute
-        { UNIT_ATTRIBUTE_SOURCE_ENCODING, isoption(options, SRCML_OPTION_STORE_ENCODING) ? encoding : 0 },
+        { UNIT_ATTRIBUTE_SOURCE_ENCODING, isoption(options, SRCML_OPTION_STORE_ENCODING) && !hasencoding ? encoding : 0 },
 
         { UNIT_ATTRIBUTE_OPTIONS,  depth == 0 && !soptions.empty() ? soptions.c_str() : 0 },
 
-- 
2.43.0


From 2f62e1c34ee585d16386fb6ab1825cf85f026e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:48 +0000
Subject: [PATCH 34/48] fix: prefix of the cpp namespace of a unit is ignored,
 and a null pointer is used when it has none

---
 src/libsrcml/sax2_srcsax_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 7f1253f..c670d49 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -441,7 +441,7 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     for (int i = 0; i < nb_namespaces; ++i) {
 
         if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? "" : (const char*) namespaces[i * 2];
+            state->cpp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
         }
     }
 
-- 
2.43.0


From b1eeca70ea1f6d2fc558ad8d2a8ece42e1239940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:08 +0000
Subject: [PATCH 35/48] fix: extra end element while writing by element ends
 the unit, and srcml_write_end_unit() never returns

---
 src/libsrcml/srcml_translator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index ab23464..3e064f3 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -349,7 +349,8 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
  */
 bool srcml_translator::add_end_element() {
 
-    if (!is_outputting_unit)
+    // only an element that was started can be ended, not the unit itself
+    if (!is_outputting_unit || output_unit_depth <= 0)
         return false;
 
     --output_unit_depth;
-- 
2.43.0


From cb4afce560f2eb4e8afeccd43f6f18fa9cfc29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:08 +0000
Subject: [PATCH 36/48] fix: srcml_write_string() modifies the string of the
 caller, and crashes on a string literal with a quote

---
 src/libsrcml/srcml_translator.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 3e064f3..533f34b 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -417,17 +417,16 @@ bool srcml_translator::add_string(const char *content) {
     if (!is_outputting_unit || content == 0)
         return false;
 
-    char* text = (char *)content;
-    for (char * pos = text; *pos; ++pos) {
+    const char* text = content;
+    for (const char* pos = text; *pos; ++pos) {
 
         if (*pos != '"')
             continue;
 
-        *pos = 0;
-        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST text) == -1)
+        // the content belongs to the caller, so is never changed
+        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST std::string(text, (std::size_t) (pos - text)).c_str()) == -1)
             return false;
 
-        *pos = '\"';
         if (xmlTextWriterWriteRaw(out.getWriter(), BAD_CAST "\"") == -1)
             return false;
 
-- 
2.43.0


From d4535178a17f42f47227ed6ec9f54c0a3d691fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 37/48] fix: namespace of an attribute that is refused while
 writing by element is declared on the next element

---
 src/libsrcml/srcml_translator.cpp | 10 ++++++++--
 src/libsrcml/srcml_translator.hpp |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 533f34b..d397478 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -270,6 +270,7 @@ bool srcml_translator::add_start_unit(const srcml_unit * unit){
     if (is_outputting_unit)
         return false;
     is_outputting_unit = true;
+    is_start_tag_open = true;
 
     first = false;
 
@@ -330,6 +331,7 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
         return false;
 
     ++output_unit_depth;
+    is_start_tag_open = true;
 
     const char* used_uri = nullptr;
     if (uri == nullptr || strcmp(SRCML_SRC_NS_URI, uri) != 0) {
@@ -354,6 +356,7 @@ bool srcml_translator::add_end_element() {
         return false;
 
     --output_unit_depth;
+    is_start_tag_open = false;
 
     return xmlTextWriterEndElement(out.getWriter()) != -1;
 }
@@ -370,7 +373,7 @@ bool srcml_translator::add_end_element() {
  */
 bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
 
-    if (!is_outputting_unit || uri == 0)
+    if (!is_outputting_unit || !is_start_tag_open || uri == 0)
         return false;
 
     std::string name = "xmlns";
@@ -396,7 +399,8 @@ bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
  */
 bool srcml_translator::add_attribute(const char* prefix, const char* name, const char* uri, const char* content) {
 
-    if (!is_outputting_unit || name == 0)
+    // the writer keeps the namespace of an attribute that it refuses for the next element
+    if (!is_outputting_unit || !is_start_tag_open || name == 0)
         return false;
 
     return xmlTextWriterWriteAttributeNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST uri, BAD_CAST content) != -1;
@@ -417,6 +421,8 @@ bool srcml_translator::add_string(const char *content) {
     if (!is_outputting_unit || content == 0)
         return false;
 
+    is_start_tag_open = false;
+
     const char* text = content;
     for (const char* pos = text; *pos; ++pos) {
 
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index df01d55..825500b 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -145,6 +145,9 @@ private:
     /** mark if have outputted starting unit tag for by element writing */
     bool is_outputting_unit = false;
 
+    /** mark if the start tag can still get attributes and namespaces for by element writing */
+    bool is_start_tag_open = false;
+
 public:
     /** track depth for by element writing */
     int output_unit_depth = 0;
-- 
2.43.0


From d6c302bddb6a7385ee723d55d34f6748f207cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 38/48] fix: nested and empty results of a transformation lose
 their content or end the list of results

---
 src/libsrcml/srcml_transform.cpp | 37 ++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index b0df3a2..4cc7c8a 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -560,13 +560,42 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             return SRCML_STATUS_ERROR;
         fullresults.swap(pr);
 
+        lastresult = TransformationResult();
         for (int i = 0; i < pr->nodeNr; ++i) {
 
-            xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
+            auto node = pr->nodeTab[i];
 
-            lastresult = trans.transformation->apply(curdoc.get(), 0, trans.xsl_parameters);
-            if (lastresult.doc)
-                docs.push_back(lastresult.doc);
+            // attributes and namespaces are not trees
+            if (node->type == XML_ATTRIBUTE_NODE || node->type == XML_NAMESPACE_DECL)
+                continue;
+
+            // the node is the root of its document while the transformation is applied
+            auto nodedoc = node->doc;
+            auto root = xmlDocGetRootElement(nodedoc);
+            xmlNodePtr place = nullptr;
+            if (node != root) {
+                place = xmlNewDocNode(nodedoc, nullptr, BAD_CAST "place", nullptr);
+                xmlReplaceNode(node, place);
+                xmlDocSetRootElement(nodedoc, node);
+            }
+
+            auto current = trans.transformation->apply(nodedoc, 0, trans.xsl_parameters);
+
+            // put the node back, as it may be part of another result
+            if (place) {
+                xmlDocSetRootElement(nodedoc, root);
+                xmlReplaceNode(place, node);
+                xmlFreeNode(place);
+            }
+
+            if (current.doc)
+                docs.push_back(current.doc);
+
+            // the other results of the previous step may still have results
+            if (current.nodeset == nullptr && (current.nodeType == SRCML_RESULT_NONE || current.nodeType == SRCML_RESULT_UNITS))
+                continue;
+
+            lastresult = std::move(current);
             std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
             if (results == nullptr)
                 break;
-- 
2.43.0


From 801f612fd6f7a2ba6f526db4978b46a565c0c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 39/48] fix: XPath expression / crashes, and uses of a
 namespace are looked up in namespace nodes

---
 src/libsrcml/srcml_transform.cpp     | 4 ++++
 src/libsrcml/xpathTransformation.cpp | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 4cc7c8a..bdb7b0b 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -499,6 +499,10 @@ static bool usesURIChildren(xmlNode* a_node, const std::string& URI) {
 
 static bool usesURI(xmlNode* cur_node, const std::string& URI) {
 
+    // namespace nodes only share the start of the node structure
+    if (cur_node->type != XML_ELEMENT_NODE)
+        return false;
+
     if (cur_node->ns && cur_node->ns->prefix && URI == (const char*) cur_node->ns->href) {
         return true;
     }
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index fe1ec55..18c38ca 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -340,6 +340,15 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position, con
     if (!result_nodes->nodesetval)
         return tresult;
 
+    // the document is its root
+    if (result_nodes->nodesetval->nodeNr && result_nodes->nodesetval->nodeTab[0]->type == XML_DOCUMENT_NODE) {
+        auto root = xmlDocGetRootElement(doc);
+        if (root && !xmlXPathNodeSetContains(result_nodes->nodesetval, root))
+            result_nodes->nodesetval->nodeTab[0] = root;
+        else
+            xmlXPathNodeSetRemove(result_nodes->nodesetval, 0);
+    }
+
     if (!result_nodes->nodesetval->nodeNr)
         return tresult;
 
-- 
2.43.0


From e8bf903ff56ea0209f9e7061a2f88a9bdea0365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 40/48] fix: text and attribute results of XPath are not
 escaped, and an empty attribute value crashes

---
 src/libsrcml/srcml_transform.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index bdb7b0b..db127b0 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -702,18 +702,20 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             nunit->srcml.append("-->");
             break;
 
-        case XML_TEXT_NODE:
+        case XML_ATTRIBUTE_NODE: {
 
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->content);
-            break;
-
-        case XML_ATTRIBUTE_NODE:
+            // no content when the value is empty
+            auto content = fullresults->nodeTab[i]->children ? fullresults->nodeTab[i]->children->content : BAD_CAST "";
+            auto value = xmlEncodeSpecialChars(fullresults->nodeTab[i]->doc, content);
 
             nunit->srcml.append((const char*) fullresults->nodeTab[i]->name);
             nunit->srcml.append("=\"");
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->children->content);
+            nunit->srcml.append((const char*) value);
             nunit->srcml.append("\"");
+
+            xmlFree(value);
             break;
+        }
 
         default:
 
-- 
2.43.0


From eb3bcf99b71642040f5e5b7d7df23789c07a4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 41/48] fix: XPath result marked twice with the same attribute
 is not well formed

---
 src/libsrcml/xpathTransformation.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 18c38ca..2a68631 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -169,7 +169,7 @@ int xpathTransformation::child_offset(xmlNodePtr root_result_node) {
 void xpathTransformation::append_attribute_to_node(xmlNodePtr node, const char* attr_prefix, const char* attr_uri) const {
 
     // grab current value
-    const char* value = (char*) xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri);
+    char* value = (char*) xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri);
     const char* newvalue = attr_value.c_str();
 
     // previous property
@@ -182,7 +182,9 @@ void xpathTransformation::append_attribute_to_node(xmlNodePtr node, const char*
         newvalue = curvalue.c_str();
     }
 
-    xmlNewNsProp(node, attr_ns, (const xmlChar *) attr_name.c_str(), (const xmlChar *) newvalue);
+    xmlSetNsProp(node, attr_ns, (const xmlChar *) attr_name.c_str(), (const xmlChar *) newvalue);
+
+    xmlFree(value);
 }
 
 xmlXPathContextPtr xpathTransformation::createContext(xmlDocPtr doc) const {
@@ -327,7 +329,7 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position, con
 
                 xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
-                append_attribute_to_node(onode, attr_prefix.c_str(), attr_value.c_str());
+                append_attribute_to_node(onode, attr_prefix.c_str(), attr_uri.c_str());
             }
         }
         tresult.unitWrapped = true;
-- 
2.43.0


From 924ea59a972e07f1740c32428b00b2e9d6d7b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 42/48] fix: tag of a result that is not a unit is lost after a
 unit result

---
 src/libsrcml/srcml_transform.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index db127b0..66fd251 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -672,7 +672,11 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         // create a new unit to store the results in
         auto nunit = srcml_unit_clone(unit);
         nunit->read_body = nunit->read_header = true;
-        if (!lastresult.unitWrapped) {
+
+        // an XPath can have results that are a unit, and results that are not
+        auto node = fullresults->nodeTab[i];
+        bool unitWrapped = lastresult.doc ? lastresult.unitWrapped : node->type == XML_ELEMENT_NODE && strcmp((const char*) node->name, "unit") == 0;
+        if (!unitWrapped) {
             nunit->attributes.push_back("item");
             nunit->attributes.push_back(std::to_string(i + 1));
             nunit->hash = boost::none;
@@ -757,13 +761,13 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         }
 
         // mark inside the units
-        nunit->content_begin = lastresult.unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
-        nunit->content_end =   lastresult.unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
+        nunit->content_begin = unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
+        nunit->content_end =   unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
         nunit->insert_begin = 0;
         nunit->insert_end = 0;
 
         // update the unit attributes with the transformed result based on the root tag
-        if (lastresult.unitWrapped) {
+        if (unitWrapped) {
             xmlSAXHandler roottagsax;
             memset(&roottagsax, 0, sizeof(roottagsax));
             roottagsax.initialized    = XML_SAX2_MAGIC;
-- 
2.43.0


From d61f73b897a257316b76d8b87b1dfd0457a2a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 43/48] fix: ampersand in an attribute of a unit result is
 written as a second character reference

---
 src/libsrcml/srcml_transform.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 66fd251..b233cbc 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -794,6 +794,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
             // parse the start tag updating the unit
             xmlParserCtxtPtr context = xmlCreateMemoryParserCtxt(starttag.c_str(), (int) starttag.size());
+            context->replaceEntities = 1;
             auto save_private = context->_private;
             context->_private = nunit;
             auto save_sax = context->sax;
-- 
2.43.0


From 378a62ab94456afea90fb7429badb66d4a77f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:21 +0000
Subject: [PATCH 44/48] fix: use of a namespace is lost when its registered
 prefix differs from the default

---
 src/libsrcml/srcmlns.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcmlns.cpp b/src/libsrcml/srcmlns.cpp
index dd21545..80d09ea 100644
--- a/src/libsrcml/srcmlns.cpp
+++ b/src/libsrcml/srcmlns.cpp
@@ -35,12 +35,17 @@ Namespaces& operator+=(Namespaces& namespaces, const Namespaces& otherns) {
         auto it = view.find(ns.uri);
         if (it != view.end()) {
 
-            // update the default prefix, but only the default prexi
+            // update the default prefix, but only the default prefix
             auto&& default_view = default_namespaces.get<nstags::uri>();
             auto default_it = default_view.find(ns.uri);
             if (default_it == default_view.end() || it->prefix == default_it->prefix) {
 
                 view.modify(it, [ns](Namespace& thisns){ thisns.prefix = ns.prefix; thisns.flags |= ns.flags; });
+
+            } else {
+
+                // the prefix stays, but the namespace may be used
+                it->flags |= ns.flags;
             }
 
         } else {
-- 
2.43.0


From 6f26103c299d4ed8930264c32228b8a2983d250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:21 +0000
Subject: [PATCH 45/48] fix: namespaces of a read unit: OpenMP lost, cpp prefix
 lost or kept for later units

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 10 ++++--
 src/libsrcml/sax2_srcsax_handler.hpp  |  2 ++
 src/libsrcml/srcml_reader_handler.hpp | 47 +++++++++++++++++----------
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index c670d49..b438b6c 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -437,11 +437,17 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     if (state == nullptr)
         return;
 
-    // collect cpp prefix
+    // collect cpp and OpenMP prefix
+    state->cpp_prefix = boost::none;
+    state->omp_prefix = boost::none;
     for (int i = 0; i < nb_namespaces; ++i) {
 
-        if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
+        std::string uri = (const char*) namespaces[i * 2 + 1];
+        srcml_uri_normalize(uri);
+        if (uri == SRCML_CPP_NS_URI) {
             state->cpp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
+        } else if (uri == SRCML_OPENMP_NS_URI) {
+            state->omp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
         }
     }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 186bf38..69e42e0 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -95,6 +95,8 @@ struct sax2_srcsax_handler {
 
     boost::optional<std::string> cpp_prefix;
 
+    boost::optional<std::string> omp_prefix;
+
     bool rootcalled = false;
 
     // libxml2 places elements into a dictionary, one for each parse
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 9801ac3..1b5422f 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -461,23 +461,9 @@ public :
             unit->src = std::move(state->unitsrc);
             unit->loc = state->loc;
 
-            // update provisional cpp prefix
-            if (state->cpp_prefix) {
-
-                // namespaces probably aren't create yet
-                if (!unit->namespaces) {
-                    unit->namespaces = default_namespaces;
-                }
-
-                // set the found prefix, plus mark it as used
-                auto&& view = unit->namespaces->get<nstags::uri>();
-                auto it = view.find(SRCML_CPP_NS_URI);
-                if (it != view.end()) {
-                    view.modify(it, [](Namespace& thisns){ thisns.flags |= NS_USED; });
-                } else {
-                    unit->namespaces->push_back({ state->cpp_prefix->c_str(), SRCML_CPP_NS_URI, NS_USED | NS_STANDARD });
-                }
-            }
+            // update provisional cpp and OpenMP prefix
+            update_unit_namespace(SRCML_CPP_NS_URI, state->cpp_prefix);
+            update_unit_namespace(SRCML_OPENMP_NS_URI, state->omp_prefix);
 
             // pause
             std::unique_lock<std::mutex> lock(mutex);
@@ -494,6 +480,33 @@ public :
 #endif
     }
 
+    /**
+     * update_unit_namespace
+     * @param uri the namespace
+     * @param prefix the prefix of the namespace on the unit, if declared
+     *
+     * Record a namespace that is declared on the unit.
+     */
+    void update_unit_namespace(const char* uri, const boost::optional<std::string>& prefix) {
+
+        if (!prefix)
+            return;
+
+        // namespaces probably aren't create yet
+        if (!unit->namespaces) {
+            unit->namespaces = default_namespaces;
+        }
+
+        // set the found prefix, plus mark it as used
+        auto&& view = unit->namespaces->get<nstags::uri>();
+        auto it = view.find(uri);
+        if (it != view.end()) {
+            view.modify(it, [&prefix](Namespace& thisns){ thisns.prefix = *prefix; thisns.flags |= NS_USED; });
+        } else {
+            unit->namespaces->push_back({ *prefix, uri, NS_USED | NS_STANDARD });
+        }
+    }
+
     /**
      * metaTag
      * @param localname the name of the element tag
-- 
2.43.0


From c7055b78d19ceb8b54039a962b7a06696cf872ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:21 +0000
Subject: [PATCH 46/48] fix: unit tag without attributes keeps namespaces in
 its text or drops its end

---
 src/libsrcml/sax2_srcsax_handler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index b438b6c..cfb34ed 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -466,8 +466,13 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
         if (pos >= 0) {
             // merge the namespaces from the root into this one
-            state->unitsrcml.reserve(ctxt->input->cur - state->base + 1 + (state->context->is_archive ? state->rootnsstr.size() : 0));
+            state->unitsrcml.reserve(ctxt->input->cur - state->base + 2 + (state->context->is_archive ? state->rootnsstr.size() : 0));
             state->unitsrcml.assign((const char*) state->base, pos);
+            // unit tag without any attributes, i.e., no space after the name
+            if (state->unitsrcml.back() == '>' || state->unitsrcml.back() == '/') {
+                state->unitsrcml.back() = ' ';
+                --pos;
+            }
             state->insert_begin = (int) state->unitsrcml.size();
             if (state->context->is_archive) {
                 state->unitsrcml.append(state->rootnsstr);
@@ -481,7 +486,8 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
                 auto pos = s.find("xmlns");
                 auto firstquote = s.find("\"", pos + 1);
                 auto secondquote = s.find("\"", firstquote + 1);
-                state->insert_end = (int) secondquote + 2;
+                // includes the space before any other attribute
+                state->insert_end = (int) secondquote + (s[secondquote + 1] == '>' || s[secondquote + 1] == '/' ? 1 : 2);
             }
         }
 
-- 
2.43.0


From e07dbc8991abdd2cba60db19ccbcb27667d7e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:55 +0000
Subject: [PATCH 47/48] fix: read before the start of an empty string result in
 srcml_write_request

---
 src/client/srcml_write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/srcml_write.cpp b/src/client/srcml_write.cpp
index e699e90..a9cec15 100644
--- a/src/client/srcml_write.cpp
+++ b/src/client/srcml_write.cpp
@@ -135,7 +135,7 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
             srcml_archive_write_string(output_archive, s, (int) strlen(s));
 
             // if the string does not end in a newline, output one
-            if (s[strlen(s) - 1] != '\n')
+            if (s[0] == '\0' || s[strlen(s) - 1] != '\n')
                 srcml_archive_write_string(output_archive, "\n", 1);
 
             srcml_transform_free(request->results);
-- 
2.43.0


From e27e093b5c4d0eeb481e1a83b568765d6dddee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:01 +0000
Subject: [PATCH 48/48] fix: keep the libxslt globals until the last
 transformation is destroyed

Destroying one XSLT transformation removed the EXSLT functions that the
transformations of other archives still use, and freed globals that
other threads were registering functions in.
---
 src/libsrcml/xsltTransformation.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index cbca58d..c773670 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -22,6 +22,7 @@
 
 #include <xsltTransformation.hpp>
 #include <stdexcept>
+#include <mutex>
 
 #include <libxml/parser.h>
 #include <libxml/parserInternals.h>
@@ -42,6 +43,12 @@
 #include <io.h>
 #endif
 
+/** guards the setup and cleanup of the libxslt globals */
+static std::mutex globals_mutex;
+
+/** number of transformations that use the libxslt globals */
+static size_t transformation_count = 0;
+
 /**
  * xsltTransformation
  * @param options list of srcML options
@@ -108,6 +115,9 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     }
 #endif
 
+    // libxslt globals are shared by all transformations
+    std::lock_guard<std::mutex> lock(globals_mutex);
+
     // allow for all exslt functions
     exsltRegisterAll();
 
@@ -115,6 +125,8 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     stylesheet = xsltParseStylesheetDoc(xslt);
     if (!stylesheet)
         throw std::invalid_argument("XSLT stylesheet");
+
+    ++transformation_count;
 }
 
 /**
@@ -126,7 +138,13 @@ xsltTransformation::~xsltTransformation() {
 
     xsltFreeStylesheet(stylesheet);
 
-    xsltCleanupGlobals();
+    {
+        // other transformations need the libxslt globals, including the exslt functions
+        std::lock_guard<std::mutex> lock(globals_mutex);
+
+        if (--transformation_count == 0)
+            xsltCleanupGlobals();
+    }
 
 #ifdef DLLOAD
     dlclose(libxslt_handle);
-- 
2.43.0

