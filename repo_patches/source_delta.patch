From 7be2adc3a99d0cbc1f4a0564ab8d497d6722971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 01/68] fix: setElementBytes wrote its converted bytes past the
 end of an empty vector

---
 parameter/ParameterMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index debf81d..1d9c47e 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -89,6 +89,7 @@
 #include <sstream>
 #include <fstream>
 #include <algorithm>
+#include <iterator>
 #include <stdexcept>
 #include <mutex>
 #include <iomanip>
@@ -1496,7 +1497,7 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementBytesComm
     auto last = remoteCommand.getArguments().cend();
 
     try {
-        std::transform(first, last, begin(bytes), [](decltype(*first) input) {
+        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
             uint8_t byte;
 
             if (!convertTo(input, byte)) {
-- 
2.43.0


From 8e42abf9817574855506e0471bc1f73693b5594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 02/68] fix: reading one array item from a configuration
 ignored the area's base offset

---
 parameter/ArrayParameter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 91ea448..b2c8b7d 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -109,7 +109,9 @@ bool CArrayParameter::accessValue(CPathNavigator &pathNavigator, string &strValu
 
         } else {
             // Scalar requested
-            CParameter::doGetValue(strValue, getOffset() + index * getSize(),
+            CParameter::doGetValue(strValue, getOffset() -
+                                                 parameterAccessContext.getBaseOffset() +
+                                                 index * getSize(),
                                    parameterAccessContext);
         }
     }
-- 
2.43.0


From b8d658fb16e5ea51b81224f4a1453e03ca666ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 03/68] fix: array index with trailing garbage or a sign was
 accepted

---
 parameter/ArrayParameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index b2c8b7d..5ca8378 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -211,12 +211,12 @@ bool CArrayParameter::getIndex(CPathNavigator &pathNavigator, size_t &index,
 
     if (pStrChildName) {
 
-        // Check index is numeric
+        // Check index is numeric, as a whole
         std::istringstream iss(*pStrChildName);
 
         iss >> index;
 
-        if (!iss) {
+        if (!iss || pStrChildName->find_first_not_of("0123456789") != string::npos) {
 
             parameterAccessContext.setError("Expected numerical expression as last item in " +
                                             pathNavigator.getCurrentPath());
-- 
2.43.0


From a1befedb860dc0691e2b4df755634dbd3cc7f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 04/68] fix: a refused array value left the items preceding it
 written

---
 parameter/ArrayParameter.cpp | 45 ++++++++++++++++++++----------------
 parameter/ArrayParameter.h   |  4 +++-
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 5ca8378..eacdd43 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -273,9 +273,12 @@ bool CArrayParameter::setValues(size_t uiStartIndex, size_t offset, const string
     size_t size = getSize();
     offset += uiStartIndex * size;
 
+    // Convert all values before writing any
+    std::vector<uint32_t> data(nbValues);
+
     for (valueIndex = 0; valueIndex < nbValues; valueIndex++) {
 
-        if (!doSet(astrValues[valueIndex], offset, parameterAccessContext)) {
+        if (!toData(astrValues[valueIndex], data[valueIndex], parameterAccessContext)) {
 
             // Append parameter path to error
             parameterAccessContext.appendToError(" " + getPath() + "/" +
@@ -283,9 +286,9 @@ bool CArrayParameter::setValues(size_t uiStartIndex, size_t offset, const string
 
             return false;
         }
-
-        offset += size;
     }
+    writeData(data, offset, parameterAccessContext);
+
     return true;
 }
 
@@ -355,21 +358,20 @@ bool CArrayParameter::setValues(const std::vector<type> &values,
                                 CParameterAccessContext &parameterAccessContext) const
 {
     size_t nbValues = getArrayLength();
-    size_t size = getSize();
-    size_t offset = getOffset();
 
     assert(values.size() == nbValues);
 
-    // Process
+    // Convert all values before writing any
+    std::vector<uint32_t> data(nbValues);
+
     for (size_t valueIndex = 0; valueIndex < nbValues; valueIndex++) {
 
-        if (!doSet(values[valueIndex], offset, parameterAccessContext)) {
+        if (!toData<type>(values[valueIndex], data[valueIndex], parameterAccessContext)) {
 
             return false;
         }
-
-        offset += size;
     }
+    writeData(data, getOffset(), parameterAccessContext);
 
     return true;
 }
@@ -400,23 +402,26 @@ bool CArrayParameter::getValues(std::vector<type> &values,
 }
 
 template <typename type>
-bool CArrayParameter::doSet(type value, size_t offset,
-                            CParameterAccessContext &parameterAccessContext) const
+bool CArrayParameter::toData(type value, uint32_t &data,
+                             CParameterAccessContext &parameterAccessContext) const
 {
-    uint32_t uiData;
-
-    if (!static_cast<const CParameterType *>(getTypeElement())
-             ->toBlackboard(value, uiData, parameterAccessContext)) {
+    return static_cast<const CParameterType *>(getTypeElement())
+        ->toBlackboard(value, data, parameterAccessContext);
+}
 
-        return false;
-    }
+void CArrayParameter::writeData(const std::vector<uint32_t> &data, size_t offset,
+                                CParameterAccessContext &parameterAccessContext) const
+{
     // Write blackboard
     CParameterBlackboard *pBlackboard = parameterAccessContext.getParameterBlackboard();
 
-    // Beware this code works on little endian architectures only!
-    pBlackboard->writeInteger(&uiData, getSize(), offset);
+    for (auto value : data) {
 
-    return true;
+        // Beware this code works on little endian architectures only!
+        pBlackboard->writeInteger(&value, getSize(), offset);
+
+        offset += getSize();
+    }
 }
 
 template <typename type>
diff --git a/parameter/ArrayParameter.h b/parameter/ArrayParameter.h
index 6410dbc..7e3182e 100644
--- a/parameter/ArrayParameter.h
+++ b/parameter/ArrayParameter.h
@@ -98,7 +98,9 @@ private:
     bool getValues(std::vector<type> &values,
                    CParameterAccessContext &parameterAccessContext) const;
     template <typename type>
-    bool doSet(type value, size_t offset, CParameterAccessContext &parameterAccessContext) const;
+    bool toData(type value, uint32_t &data, CParameterAccessContext &parameterAccessContext) const;
+    void writeData(const std::vector<uint32_t> &data, size_t offset,
+                   CParameterAccessContext &parameterAccessContext) const;
     template <typename type>
     bool doGet(type &value, size_t offset, CParameterAccessContext &parameterAccessContext) const;
 };
-- 
2.43.0


From 4a27561e5a2d1f947f11aa03b9b178645971fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 05/68] fix: undefined shift when formatting 32 bit values in
 hexadecimal

---
 parameter/ParameterType.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterType.cpp b/parameter/ParameterType.cpp
index 5472f27..ec2a608 100644
--- a/parameter/ParameterType.cpp
+++ b/parameter/ParameterType.cpp
@@ -203,7 +203,12 @@ uint32_t CParameterType::makeEncodable(uint32_t uiData) const
 {
     size_t sizeInBits = getSize() * 8;
 
-    uint32_t uiMask = (1 << sizeInBits) - 1;
+    if (sizeInBits >= 8 * sizeof(uiData)) {
+        // Nothing to remove, prevent inappropriate shifts
+        return uiData;
+    }
+
+    uint32_t uiMask = (uint32_t{1} << sizeInBits) - 1;
 
     return uiData & uiMask;
 }
-- 
2.43.0


From 650dad9437e2299e00906d4da7b6621be3c52722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 06/68] fix: raw value of a negative 32 bit enum could be read
 but not written back

---
 parameter/EnumParameterType.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 468b6c6..bdabd40 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -97,8 +97,14 @@ bool CEnumParameterType::toBlackboard(const string &strValue, uint32_t &uiValue,
 {
     int32_t iParsedUserValue = 0;
 
+    uint32_t rawData = 0;
+
     // Try to read the user-provided string as an integer
-    if (not convertTo(strValue, iParsedUserValue)) {
+    if (parameterAccessContext.valueSpaceIsRaw() and getSize() == sizeof(rawData) and
+        convertTo(strValue, rawData)) {
+        // Raw data is shown unsigned, whatever the sign of the value
+        iParsedUserValue = static_cast<int32_t>(rawData);
+    } else if (not convertTo(strValue, iParsedUserValue)) {
         // If it fails to parse as an integer, first try to convert it from
         // lexical to numerical space.
         int32_t iNumerical;
-- 
2.43.0


From 22a91bbee7a4fc3f3d14b7e078b73f46a8c63ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 07/68] fix: text that is not a number was taken as a bit
 parameter value

---
 parameter/BitParameterType.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 14421f1..e9e25a5 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -30,6 +30,7 @@
 #include "BitParameterType.h"
 #include "BitParameter.h"
 #include <stdlib.h>
+#include <errno.h>
 #include <sstream>
 #include "ParameterAccessContext.h"
 #include "BitParameterBlockType.h"
@@ -123,7 +124,17 @@ bool CBitParameterType::toBlackboard(const string &strValue, uint64_t &uiValue,
                                      CParameterAccessContext &parameterAccessContext) const
 {
     // Get value
-    uint64_t uiConvertedValue = strtoull(strValue.c_str(), nullptr, 0);
+    char *end = nullptr;
+    errno = 0;
+    uint64_t uiConvertedValue = strtoull(strValue.c_str(), &end, 0);
+
+    if (strValue.empty() || end != strValue.c_str() + strValue.size() || errno == ERANGE ||
+        strValue.find('-') != string::npos) {
+
+        parameterAccessContext.setError("Value '" + strValue + "' is invalid for " + getKind());
+
+        return false;
+    }
 
     if (uiConvertedValue > _uiMax) {
 
-- 
2.43.0


From 3a12ab105439c9b1934a0147c1f7afc9cf712dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 08/68] fix: bit parameter with no size or overflowing position
 was accepted

---
 parameter/BitParameterType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index e9e25a5..78756e8 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -87,7 +87,8 @@ bool CBitParameterType::fromXml(const CXmlElement &xmlElement,
 
     size_t uiParentBlockBitSize = pBitParameterBlockType->getSize() * 8;
 
-    if (_bitPos + _uiBitSize > uiParentBlockBitSize) {
+    if (_uiBitSize == 0 || _uiBitSize > uiParentBlockBitSize ||
+        _bitPos > uiParentBlockBitSize - _uiBitSize) {
 
         // Range exceeded
         std::ostringstream strStream;
-- 
2.43.0


From 8d1768dd5639f974e471bedad5d860a74e0face7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 09/68] fix: a string set from raw bytes without termination
 was read past its end

---
 parameter/ParameterBlackboard.cpp | 6 +++---
 parameter/StringParameter.cpp     | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/parameter/ParameterBlackboard.cpp b/parameter/ParameterBlackboard.cpp
index eaa6b97..38d453e 100644
--- a/parameter/ParameterBlackboard.cpp
+++ b/parameter/ParameterBlackboard.cpp
@@ -80,9 +80,9 @@ void CParameterBlackboard::readString(std::string &output, size_t offset) const
     // the size that will be read is not known. (>= 1)
     assertValidAccess(offset, sizeof('\0'));
 
-    // Get the pointer to the null terminated string
-    const uint8_t *first = &mBlackboard[offset];
-    output = reinterpret_cast<const char *>(first);
+    // Raw bytes may have been written: do not rely on a null termination
+    auto first = mBlackboard.begin() + offset;
+    output.assign(first, std::find(first, mBlackboard.end(), '\0'));
 }
 
 void CParameterBlackboard::writeBuffer(const void *pvSrcData, size_t size, size_t offset)
diff --git a/parameter/StringParameter.cpp b/parameter/StringParameter.cpp
index 0651bf6..928da1e 100644
--- a/parameter/StringParameter.cpp
+++ b/parameter/StringParameter.cpp
@@ -91,4 +91,9 @@ void CStringParameter::doGetValue(string &strValue, size_t offset,
                                   CParameterAccessContext &parameterAccessContext) const
 {
     parameterAccessContext.getParameterBlackboard()->readString(strValue, offset);
+
+    // Raw bytes set without termination must not let the next element show through
+    if (strValue.size() >= getSize()) {
+        strValue.resize(getSize() - 1);
+    }
 }
-- 
2.43.0


From e0e1f89611fa7520a5b163c7cbd899d0c7878c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 10/68] fix: unsupported enum, fixed point and bit block sizes
 were accepted and overran their storage

---
 parameter/BitParameterBlockType.cpp   |  8 ++++++++
 parameter/EnumParameterType.cpp       |  8 ++++++++
 parameter/FixedPointParameterType.cpp | 11 ++++++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/parameter/BitParameterBlockType.cpp b/parameter/BitParameterBlockType.cpp
index 316676d..5a462d2 100644
--- a/parameter/BitParameterBlockType.cpp
+++ b/parameter/BitParameterBlockType.cpp
@@ -61,6 +61,14 @@ bool CBitParameterBlockType::fromXml(const CXmlElement &xmlElement,
 {
     // Size
     xmlElement.getAttribute("Size", _size);
+
+    // Size support check
+    if (_size != 8 && _size != 16 && _size != 32 && _size != 64) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(_size) + ") for " +
+                                    getKind() + " " + xmlElement.getPath());
+        return false;
+    }
     _size /= 8;
 
     // Base
diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index bdabd40..ed33b81 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -84,6 +84,14 @@ bool CEnumParameterType::fromXml(const CXmlElement &xmlElement,
         return false;
     }
 
+    // Size support check
+    if (sizeInBits != 8 and sizeInBits != 16 and sizeInBits != 32) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                    getKind() + " " + xmlElement.getPath());
+        return false;
+    }
+
     // Size
     setSize(sizeInBits / 8);
 
diff --git a/parameter/FixedPointParameterType.cpp b/parameter/FixedPointParameterType.cpp
index 830ac64..fa0c887 100644
--- a/parameter/FixedPointParameterType.cpp
+++ b/parameter/FixedPointParameterType.cpp
@@ -98,8 +98,17 @@ bool CFixedPointParameterType::fromXml(const CXmlElement &xmlElement,
     xmlElement.getAttribute("Integral", _uiIntegral);
     xmlElement.getAttribute("Fractional", _uiFractional);
 
+    // Size support check
+    if (sizeInBits != 8 && sizeInBits != 16 && sizeInBits != 32) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                    getKind() + " " + xmlElement.getPath());
+        return false;
+    }
+
     // Size vs. Q notation integrity check
-    if (sizeInBits < getUtilSizeInBits()) {
+    if (_uiIntegral >= sizeInBits || _uiFractional >= sizeInBits ||
+        sizeInBits < getUtilSizeInBits()) {
 
         std::string size;
         xmlElement.getAttribute("Size", size);
-- 
2.43.0


From 5d6f91b0a056f90503825fb36638b39ee0ae4e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 11/68] fix: a single imported domain was not validated,
 applying it could abort

---
 parameter/ParameterMgr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 1d9c47e..30313a3 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2587,7 +2587,11 @@ bool CParameterMgr::importSingleDomainXml(const string &xmlSource, bool overwrit
     }
 
     // ownership has been transfered to the ConfigurableDomains object
-    standaloneDomain.release();
+    CConfigurableDomain *domain = standaloneDomain.release();
+
+    // Ensure the new domain is valid
+    domain->validate(_pMainParameterBlackboard);
+
     return true;
 }
 
-- 
2.43.0


From a8a43455f90d866778f3f35c339b35b78c11b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 12/68] fix: a refused domain split was reported as a success

---
 parameter/ConfigurableDomains.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index 35674fd..faceb7c 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -310,9 +310,7 @@ bool CConfigurableDomains::split(const string &domainName, CConfigurableElement
         return false;
     }
     // Delegate
-    domain->split(element, infos);
-
-    return true;
+    return domain->split(element, infos);
 }
 
 void CConfigurableDomains::listAssociatedElements(string &strResult) const
-- 
2.43.0


From 5648ebb9d3ec1b91805d6ee9a608b9e768f0fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 13/68] fix: default value of a floating point parameter could
 be out of its own range

---
 parameter/FloatingPointParameterType.cpp | 6 ++++++
 parameter/FloatingPointParameterType.h   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index 44de9e2..d20f77e 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -28,6 +28,7 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "FloatingPointParameterType.h"
+#include <algorithm>
 #include <sstream>
 #include <iomanip>
 #include "ParameterAccessContext.h"
@@ -173,6 +174,11 @@ bool CFloatingPointParameterType::toBlackboard(
     }
 }
 
+uint32_t CFloatingPointParameterType::getDefaultValue() const
+{
+    return utility::binaryCopy<uint32_t>(std::max(_fMin, std::min(_fMax, 0.0f)));
+}
+
 void CFloatingPointParameterType::setOutOfRangeError(
     const string &strValue, CParameterAccessContext &parameterAccessContext) const
 {
diff --git a/parameter/FloatingPointParameterType.h b/parameter/FloatingPointParameterType.h
index b56c9aa..34cdc38 100644
--- a/parameter/FloatingPointParameterType.h
+++ b/parameter/FloatingPointParameterType.h
@@ -56,6 +56,9 @@ public:
 
     void showProperties(std::string &strResult) const override;
 
+    /** The default value is the closest to 0 in the admitted range */
+    uint32_t getDefaultValue() const override;
+
     std::string getKind() const override;
 
 private:
-- 
2.43.0


From 7951722cc58a7843e23f2822ca81842366878c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 14/68] fix: a refused element sequence was applied in part

---
 parameter/DomainConfiguration.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parameter/DomainConfiguration.cpp b/parameter/DomainConfiguration.cpp
index f5d7182..13c9d6b 100644
--- a/parameter/DomainConfiguration.cpp
+++ b/parameter/DomainConfiguration.cpp
@@ -229,8 +229,8 @@ bool CDomainConfiguration::setElementSequence(const std::vector<string> &newElem
                                               string &error)
 {
     std::vector<string> elementSequenceSet;
-    auto insertLocation = begin(mAreaConfigurationList);
 
+    // Check the whole sequence before changing anything
     for (const std::string &elementPath : newElementSequence) {
 
         auto areaConfiguration = findAreaConfigurationByPath(elementPath);
@@ -246,6 +246,13 @@ bool CDomainConfiguration::setElementSequence(const std::vector<string> &newElem
             return false;
         }
         elementSequenceSet.push_back(elementPath);
+    }
+
+    auto insertLocation = begin(mAreaConfigurationList);
+
+    for (const std::string &elementPath : newElementSequence) {
+
+        auto areaConfiguration = findAreaConfigurationByPath(elementPath);
         // Take into account the new configuration order by moving the configuration associated to
         // the element to the n-th position of the configuration list.
         // It will result in prepending to the configuration list wit the configuration of all
-- 
2.43.0


From beff7c8c4edfe547d09030ad84064398f6af6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 15/68] fix: setSequenceAwareness without its second argument
 read past the arguments

---
 parameter/ParameterMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 30313a3..2212709 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -195,7 +195,7 @@ const CParameterMgr::SRemoteCommandParserItem CParameterMgr::gastRemoteCommandPa
      "Delete all configurable domains"},
     {"renameDomain", &CParameterMgr::renameDomainCommandProcess, 2, "<domain> <new name>",
      "Rename configurable domain"},
-    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 1,
+    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 2,
      "<domain> true|false*", "Set configurable domain sequence awareness"},
     {"getSequenceAwareness", &CParameterMgr::getSequenceAwarenessCommandProcess, 1, "<domain>",
      "Get configurable domain sequence awareness"},
-- 
2.43.0


From e0ea9ed60f1f2567a98f06ca14550bc305221014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 16/68] fix: array of strings access to a parameter without
 such a conversion aborted

---
 parameter/BaseParameter.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parameter/BaseParameter.cpp b/parameter/BaseParameter.cpp
index f28a26c..c9fa378 100644
--- a/parameter/BaseParameter.cpp
+++ b/parameter/BaseParameter.cpp
@@ -173,11 +173,9 @@ bool CBaseParameter::access(string &strValue, bool bSet,
 }
 
 bool CBaseParameter::access(std::vector<string> & /*astrValues*/, bool /*bSet*/,
-                            CParameterAccessContext & /*ctx*/) const
+                            CParameterAccessContext &parameterAccessContext) const
 {
-    // Generic string array access to scalar parameter must have been filtered out before
-    assert(0);
-
+    parameterAccessContext.setError("Unsupported conversion");
     return false;
 }
 
-- 
2.43.0


From f72a36355c0200bc3e6fa37d28e2309bdc4e762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 17/68] fix: mapping context lookup by name returned the key
 instead of its value

---
 parameter/MappingContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/MappingContext.cpp b/parameter/MappingContext.cpp
index 3599296..2b9f14c 100644
--- a/parameter/MappingContext.cpp
+++ b/parameter/MappingContext.cpp
@@ -71,7 +71,7 @@ const string *CMappingContext::getItem(const string &strKey) const
     auto itemFound = find_if(begin(mItems), end(mItems), [&](const SItem &item) {
         return item.strKey != nullptr && strKey == *item.strKey;
     });
-    return (itemFound != end(mItems)) ? itemFound->strKey : nullptr;
+    return (itemFound != end(mItems)) ? itemFound->strItem : nullptr;
 }
 
 bool CMappingContext::iSet(size_t itemType) const
-- 
2.43.0


From 902a953bd39ee4bf9e5c2c78cc05f51eb138970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 18/68] fix: rule on a combination of inclusive values lost its
 value when shown or exported

---
 parameter/SelectionCriterionRule.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parameter/SelectionCriterionRule.cpp b/parameter/SelectionCriterionRule.cpp
index 8c22045..aabcafa 100644
--- a/parameter/SelectionCriterionRule.cpp
+++ b/parameter/SelectionCriterionRule.cpp
@@ -112,7 +112,11 @@ string CSelectionCriterionRule::dump() const
 {
     // Value
     string value;
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, value);
+    if (!_pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, value)) {
+
+        // Combination of values
+        value = _pSelectionCriterion->getCriterionType()->getFormattedState(_iMatchValue);
+    }
 
     // "<Name> <Verb> <Value>"
     return string(_pSelectionCriterion->getName()) + " " +
@@ -208,7 +212,11 @@ void CSelectionCriterionRule::toXml(CXmlElement &xmlElement, CXmlSerializingCont
     // Set Value
     string strValue;
 
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, strValue);
+    if (!_pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, strValue)) {
+
+        // Combination of values
+        strValue = _pSelectionCriterion->getCriterionType()->getFormattedState(_iMatchValue);
+    }
 
     xmlElement.setAttribute("Value", strValue);
 }
-- 
2.43.0


From 4b21ea61504e3a9849298f244cd6970150bcf187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 19/68] fix: malformed rules were accepted with a part of them
 ignored, or aborted

---
 parameter/RuleParser.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/parameter/RuleParser.cpp b/parameter/RuleParser.cpp
index e069cd1..cfa04fd 100644
--- a/parameter/RuleParser.cpp
+++ b/parameter/RuleParser.cpp
@@ -162,6 +162,15 @@ bool CRuleParser::iterate(string &strError)
         ((delimiter = _strApplicationRule.find_first_of(_acDelimiters[_eStatus], _uiCurrentPos)) !=
          string::npos)) {
 
+        // End and separator come right after what they terminate
+        if ((_strApplicationRule[delimiter] == '}' || _strApplicationRule[delimiter] == ',') &&
+            delimiter != _uiCurrentPos) {
+
+            strError = "Syntax error";
+
+            return false;
+        }
+
         switch (_strApplicationRule[delimiter]) {
 
         case '{':
@@ -186,6 +195,13 @@ bool CRuleParser::iterate(string &strError)
             _strRuleType = _strApplicationRule.substr(_uiCurrentPos, delimiter - _uiCurrentPos);
             break;
         case ',':
+            // There is one single root rule
+            if (!_currentDeepness) {
+
+                strError = "Syntax error";
+
+                return false;
+            }
             _eStatus = EContinue;
             break;
         }
@@ -258,6 +274,13 @@ bool CRuleParser::next(string &strNext, string &strError)
 
     strNext = _strApplicationRule.substr(_uiCurrentPos, delimiter - _uiCurrentPos);
 
+    if (strNext.empty()) {
+
+        strError = "Syntax error";
+
+        return false;
+    }
+
     // New pos
     _uiCurrentPos = delimiter;
 
-- 
2.43.0


From 8ccd97dbafc9aa032f880c19766165591dc7f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 20/68] fix: undefined conversion of large user values by
 parameter adaptations

---
 parameter/LogarithmicParameterAdaptation.cpp |  2 +-
 parameter/ParameterAdaptation.cpp            | 18 +++++++++++++++++-
 parameter/ParameterAdaptation.h              |  4 ++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/parameter/LogarithmicParameterAdaptation.cpp b/parameter/LogarithmicParameterAdaptation.cpp
index 128ab07..77936f6 100644
--- a/parameter/LogarithmicParameterAdaptation.cpp
+++ b/parameter/LogarithmicParameterAdaptation.cpp
@@ -76,7 +76,7 @@ bool CLogarithmicParameterAdaptation::fromXml(const CXmlElement &xmlElement,
 int64_t CLogarithmicParameterAdaptation::fromUserValue(double value) const
 {
     return std::max(base::fromUserValue(log(value) / log(_dLogarithmBase)),
-                    static_cast<int64_t>(_dFloorValue));
+                    toInteger(_dFloorValue));
 }
 
 double CLogarithmicParameterAdaptation::toUserValue(int64_t iValue) const
diff --git a/parameter/ParameterAdaptation.cpp b/parameter/ParameterAdaptation.cpp
index 67b4bca..4eafe17 100644
--- a/parameter/ParameterAdaptation.cpp
+++ b/parameter/ParameterAdaptation.cpp
@@ -75,7 +75,23 @@ bool CParameterAdaptation::fromXml(const CXmlElement &xmlElement,
 // Conversions
 int64_t CParameterAdaptation::fromUserValue(double dValue) const
 {
-    return (int64_t)dValue + _iOffset;
+    return toInteger(dValue) + _iOffset;
+}
+
+int64_t CParameterAdaptation::toInteger(double dValue)
+{
+    const int64_t limit = int64_t(1) << 62;
+
+    if (dValue >= limit) {
+
+        return limit;
+    }
+    // Negated so as to include values which are not numbers
+    if (!(dValue > -limit)) {
+
+        return -limit;
+    }
+    return static_cast<int64_t>(dValue);
 }
 
 double CParameterAdaptation::toUserValue(int64_t iValue) const
diff --git a/parameter/ParameterAdaptation.h b/parameter/ParameterAdaptation.h
index d600161..075b339 100644
--- a/parameter/ParameterAdaptation.h
+++ b/parameter/ParameterAdaptation.h
@@ -56,6 +56,10 @@ protected:
     // Attributes
     int32_t getOffset() const;
 
+    /** Integer part of a value, saturated so that an offset can be added to it.
+     * A value which is not a number is converted as the lowest one. */
+    static int64_t toInteger(double dValue);
+
 private:
     // Offset
     int32_t _iOffset{0};
-- 
2.43.0


From aeaf71f3a3baa40c89a50edb32263fba67768dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 21/68] fix: overflow when registering the highest bit as a
 value of an inclusive criterion

---
 parameter/SelectionCriterionType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/SelectionCriterionType.cpp b/parameter/SelectionCriterionType.cpp
index d97d18b..89a9f0c 100644
--- a/parameter/SelectionCriterionType.cpp
+++ b/parameter/SelectionCriterionType.cpp
@@ -55,7 +55,7 @@ bool CSelectionCriterionType::addValuePair(int iValue, const std::string &strVal
                                            std::string &strError)
 {
     // Check 1 bit set only for inclusive types
-    if (_bInclusive && (!iValue || (iValue & (iValue - 1)))) {
+    if (_bInclusive && (!iValue || (static_cast<unsigned int>(iValue) & (static_cast<unsigned int>(iValue) - 1)))) {
 
         std::ostringstream error;
         error << "Rejecting value pair association: 0x" << std::hex << iValue << " - " << strValue
-- 
2.43.0


From 991ecac0e093b878c8df94956aae63fe85e28f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 22/68] fix: raw hexadecimal output of floating point values
 could not be read back

---
 parameter/FloatingPointParameterType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index d20f77e..0bcf0c4 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -218,8 +218,8 @@ bool CFloatingPointParameterType::fromBlackboard(
 
         if (parameterAccessContext.outputRawFormatIsHex()) {
 
-            ostrStream << std::showbase << std::hex << std::setw(static_cast<int>(getSize() * 2))
-                       << std::setfill('0');
+            ostrStream << "0x" << std::hex << std::uppercase
+                       << std::setw(static_cast<int>(getSize() * 2)) << std::setfill('0');
         }
 
         ostrStream << uiValue;
-- 
2.43.0


From 68f4477c5a0ef7294ce20e18b4ee37339afaa4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 23/68] fix: malformed remote messages aborted the server or
 overran its buffers

---
 remote-processor/AnswerMessage.cpp  |  9 ++++-
 remote-processor/AnswerMessage.h    |  2 +-
 remote-processor/Message.cpp        | 61 +++++++++++++++++++++++------
 remote-processor/Message.h          | 12 ++++--
 remote-processor/RequestMessage.cpp | 14 +++++--
 remote-processor/RequestMessage.h   |  2 +-
 6 files changed, 76 insertions(+), 24 deletions(-)

diff --git a/remote-processor/AnswerMessage.cpp b/remote-processor/AnswerMessage.cpp
index 7ae948f..fd61127 100644
--- a/remote-processor/AnswerMessage.cpp
+++ b/remote-processor/AnswerMessage.cpp
@@ -79,12 +79,17 @@ void CAnswerMessage::fillDataToSend()
 }
 
 // Collect received data
-void CAnswerMessage::collectReceivedData()
+bool CAnswerMessage::collectReceivedData()
 {
     // Receive answer
     string strAnswer;
 
-    readString(strAnswer);
+    if (!readString(strAnswer)) {
+
+        return false;
+    }
 
     setAnswer(strAnswer);
+
+    return true;
 }
diff --git a/remote-processor/AnswerMessage.h b/remote-processor/AnswerMessage.h
index 2bc5147..f4433c4 100644
--- a/remote-processor/AnswerMessage.h
+++ b/remote-processor/AnswerMessage.h
@@ -49,7 +49,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
 
     /** @return size of the answer message in bytes
     */
diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index 66154ec..978fba5 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -31,6 +31,7 @@
 #include "Socket.h"
 #include "Iterator.hpp"
 #include <asio.hpp>
+#include <algorithm>
 #include <vector>
 #include <numeric>
 #include <cassert>
@@ -70,9 +71,13 @@ void CMessage::writeData(const void *pvData, size_t size)
     _uiIndex += size;
 }
 
-void CMessage::readData(void *pvData, size_t size)
+bool CMessage::readData(void *pvData, size_t size)
 {
-    assert(isValidAccess(_uiIndex, size));
+    // The content comes from the peer
+    if (!isValidAccess(_uiIndex, size)) {
+
+        return false;
+    }
 
     auto first = begin(mData) + _uiIndex;
     auto last = first + size;
@@ -81,6 +86,8 @@ void CMessage::readData(void *pvData, size_t size)
     std::copy(first, last, destFirst);
 
     _uiIndex += size;
+
+    return true;
 }
 
 void CMessage::writeString(const string &strData)
@@ -94,24 +101,32 @@ void CMessage::writeString(const string &strData)
     writeData(strData.c_str(), size);
 }
 
-void CMessage::readString(string &strData)
+bool CMessage::readString(string &strData)
 {
     // Size
     uint32_t uiSize;
 
-    readData(&uiSize, sizeof(uiSize));
+    if (!readData(&uiSize, sizeof(uiSize)) || uiSize > getRemainingDataSize()) {
+
+        return false;
+    }
 
     // Data
-    std::vector<char> string(uiSize + 1);
+    std::vector<char> string(size_t(uiSize) + 1);
 
     // Content
-    readData(string.data(), uiSize);
+    if (!readData(string.data(), uiSize)) {
+
+        return false;
+    }
 
     // NULL-terminate string
     string.back() = '\0';
 
     // Output
     strData = string.data();
+
+    return true;
 }
 
 size_t CMessage::getStringSize(const string &strData) const
@@ -214,6 +229,12 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
             return error;
         }
 
+        if (uiSize < sizeof(_ucMsgId)) {
+
+            strError = "Size incorrect";
+            return error;
+        }
+
         // Msg Id
         if (!asio::read(asioSocket, asio::buffer(&_ucMsgId, sizeof(_ucMsgId)), ec)) {
             strError = string("Msg id read failed: ") + ec.message();
@@ -222,13 +243,23 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
 
         // Data
 
-        // Allocate
-        allocateData(uiSize - sizeof(_ucMsgId));
+        size_t remainingSize = uiSize - sizeof(_ucMsgId);
 
-        // Data receive
-        if (!asio::read(asioSocket, asio::buffer(mData), ec)) {
-            strError = string("Data read failed: ") + ec.message();
-            return error;
+        allocateData(0);
+
+        // Data receive: the announced size can't be trusted, allocate as data comes
+        while (remainingSize != 0) {
+
+            size_t received = mData.size();
+            size_t chunkSize = std::min<size_t>(remainingSize, 0x10000);
+
+            mData.resize(received + chunkSize);
+
+            if (!asio::read(asioSocket, asio::buffer(mData.data() + received, chunkSize), ec)) {
+                strError = string("Data read failed: ") + ec.message();
+                return error;
+            }
+            remainingSize -= chunkSize;
         }
 
         // Checksum
@@ -246,7 +277,11 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
         }
 
         // Collect data in derived
-        collectReceivedData();
+        if (!collectReceivedData()) {
+
+            strError = "Malformed data";
+            return error;
+        }
     }
 
     return success;
diff --git a/remote-processor/Message.h b/remote-processor/Message.h
index 2a596f1..94de381 100644
--- a/remote-processor/Message.h
+++ b/remote-processor/Message.h
@@ -88,8 +88,10 @@ protected:
     *
     * @param[out] pvData pointer to the data array
     * @param[in] uiSize array size in bytes
+    *
+    * @return false if the message has less remaining data
     */
-    void readData(void *pvData, size_t uiSize);
+    bool readData(void *pvData, size_t uiSize);
 
     /** Write string to the message
     *
@@ -100,8 +102,10 @@ protected:
     /** Write string to the message
     *
     * @param[out] strData the string to read to
+    *
+    * @return false if the message does not contain such a string
     */
-    void readString(std::string &strData);
+    bool readString(std::string &strData);
 
     /** @return string length plus room to store its length
     *
@@ -124,8 +128,8 @@ private:
     void allocateData(size_t uiDataSize);
     // Fill data to send
     virtual void fillDataToSend() = 0;
-    // Collect received data
-    virtual void collectReceivedData() = 0;
+    // Collect received data, return false if it is malformed
+    virtual bool collectReceivedData() = 0;
 
     /** @return size of the transaction data in bytes
     */
diff --git a/remote-processor/RequestMessage.cpp b/remote-processor/RequestMessage.cpp
index 0c32438..7a78783 100644
--- a/remote-processor/RequestMessage.cpp
+++ b/remote-processor/RequestMessage.cpp
@@ -104,12 +104,15 @@ void CRequestMessage::fillDataToSend()
 }
 
 // Collect received data
-void CRequestMessage::collectReceivedData()
+bool CRequestMessage::collectReceivedData()
 {
     // Receive command
     string strCommand;
 
-    readString(strCommand);
+    if (!readString(strCommand)) {
+
+        return false;
+    }
 
     setCommand(strCommand);
 
@@ -118,10 +121,15 @@ void CRequestMessage::collectReceivedData()
 
         string strArgument;
 
-        readString(strArgument);
+        if (!readString(strArgument)) {
+
+            return false;
+        }
 
         addArgument(strArgument);
     }
+
+    return true;
 }
 
 // Size
diff --git a/remote-processor/RequestMessage.h b/remote-processor/RequestMessage.h
index 57c0be0..524bb16 100644
--- a/remote-processor/RequestMessage.h
+++ b/remote-processor/RequestMessage.h
@@ -64,7 +64,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
     // Size
     /**
      * @return size of the request message in bytes
-- 
2.43.0


From 37d1002421a215e5b4e53c3880ee8a3dce34e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 24/68] fix: a remote server not started or already stopped
 terminated on destruction

---
 remote-processor/BackgroundRemoteProcessorServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/remote-processor/BackgroundRemoteProcessorServer.cpp b/remote-processor/BackgroundRemoteProcessorServer.cpp
index 0820786..a86fe5d 100644
--- a/remote-processor/BackgroundRemoteProcessorServer.cpp
+++ b/remote-processor/BackgroundRemoteProcessorServer.cpp
@@ -55,7 +55,9 @@ bool BackgroundRemoteProcessorServer::start(std::string &error)
 bool BackgroundRemoteProcessorServer::stop()
 {
     _server->stop();
-    return mServerSuccess.get();
+
+    // Nothing to wait for if the server is not started or already stopped
+    return !mServerSuccess.valid() || mServerSuccess.get();
 }
 
 BackgroundRemoteProcessorServer::~BackgroundRemoteProcessorServer()
-- 
2.43.0


From 502dc9d08bf0ccd70fa43e7395697ab5edf8cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 25/68] fix: concurrent use of the logger corrupted its
 indentation

---
 parameter/log/include/log/Context.h    |  4 ++--
 parameter/log/include/log/LogWrapper.h |  2 +-
 parameter/log/include/log/Logger.h     | 32 +++++++++++++++++++++++---
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/parameter/log/include/log/Context.h b/parameter/log/include/log/Context.h
index b03f9ca..f2e5ab6 100644
--- a/parameter/log/include/log/Context.h
+++ b/parameter/log/include/log/Context.h
@@ -50,13 +50,13 @@ public:
     Context(Logger &logger, const std::string &context) : mLogger(logger)
     {
         mLogger.info() << context << " {";
-        mLogger.mProlog += "    ";
+        mLogger.indent();
     }
 
     /** Class Destructor */
     ~Context()
     {
-        mLogger.mProlog.resize(mLogger.mProlog.size() - 4);
+        mLogger.unindent();
         mLogger.info() << "}";
     }
 
diff --git a/parameter/log/include/log/LogWrapper.h b/parameter/log/include/log/LogWrapper.h
index 8226876..78344bf 100644
--- a/parameter/log/include/log/LogWrapper.h
+++ b/parameter/log/include/log/LogWrapper.h
@@ -122,7 +122,7 @@ private:
     ILogger &mLogger;
 
     /** Log Prefix */
-    const std::string &mProlog;
+    const std::string mProlog;
 };
 
 /** Default information logger type */
diff --git a/parameter/log/include/log/Logger.h b/parameter/log/include/log/Logger.h
index ea16f4e..f3fe423 100644
--- a/parameter/log/include/log/Logger.h
+++ b/parameter/log/include/log/Logger.h
@@ -34,12 +34,17 @@
 
 #include "NonCopyable.hpp"
 
+#include <mutex>
+#include <string>
+
 namespace core
 {
 namespace log
 {
 
-/** Application logger object (Thread unsafe)
+/** Application logger object
+ * Contexts may be opened by several threads, their indentation being shared.
+ * The raw logger has to be thread safe by itself.
  * Provide contextualisable logging API.
  * Streams can be used through Info and Warning objects returned by dedicated
  * methods.
@@ -59,21 +64,42 @@ public:
      *
      * @return Info logger
      */
-    details::Info info() { return details::Info(mLogger, mProlog); }
+    details::Info info() { return details::Info(mLogger, getProlog()); }
 
     /**
      * Retrieve wrapped warning logger
      *
      * @return Warning logger
      */
-    details::Warning warning() { return details::Warning(mLogger, mProlog); }
+    details::Warning warning() { return details::Warning(mLogger, getProlog()); }
 
 private:
+    std::string getProlog()
+    {
+        std::lock_guard<std::mutex> lock(mPrologMutex);
+        return mProlog;
+    }
+
+    void indent()
+    {
+        std::lock_guard<std::mutex> lock(mPrologMutex);
+        mProlog += "    ";
+    }
+
+    void unindent()
+    {
+        std::lock_guard<std::mutex> lock(mPrologMutex);
+        mProlog.resize(mProlog.size() - 4);
+    }
+
     /** Raw logger provided by client */
     ILogger &mLogger;
 
     /** Log prolog, owns the context indentation */
     std::string mProlog;
+
+    /** Protects the prolog */
+    std::mutex mPrologMutex;
 };
 
 } // namespace log
-- 
2.43.0


From 7c1da0f0f88cc03cb678b92cc767c256cc77a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 26/68] fix: data races on the tuning flags and on the
 criterion states

---
 parameter/ParameterMgr.h       | 9 +++++----
 parameter/SelectionCriterion.h | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/parameter/ParameterMgr.h b/parameter/ParameterMgr.h
index bc0726d..e3bba85 100644
--- a/parameter/ParameterMgr.h
+++ b/parameter/ParameterMgr.h
@@ -29,6 +29,7 @@
  */
 #pragma once
 
+#include <atomic>
 #include <mutex>
 #include <map>
 #include <vector>
@@ -844,16 +845,16 @@ private:
     inline core::log::details::Warning warning();
 
     // Tuning
-    bool _bTuningModeIsOn{false};
+    std::atomic<bool> _bTuningModeIsOn{false};
 
     // Value Space
-    bool _bValueSpaceIsRaw{false};
+    std::atomic<bool> _bValueSpaceIsRaw{false};
 
     // Output Raw Format
-    bool _bOutputRawFormatIsHex{false};
+    std::atomic<bool> _bOutputRawFormatIsHex{false};
 
     // Automatic synchronization to HW during Tuning session
-    bool _bAutoSyncOn{true};
+    std::atomic<bool> _bAutoSyncOn{true};
 
     // Current Parameter Settings
     CParameterBlackboard *_pMainParameterBlackboard;
diff --git a/parameter/SelectionCriterion.h b/parameter/SelectionCriterion.h
index 9c2dfe2..f2617b6 100644
--- a/parameter/SelectionCriterion.h
+++ b/parameter/SelectionCriterion.h
@@ -35,6 +35,7 @@
 #include <log/Logger.h>
 #include <NonCopyable.hpp>
 
+#include <atomic>
 #include <string>
 
 class CSelectionCriterion : public CElement,
@@ -80,12 +81,12 @@ public:
 
 private:
     // Current state
-    int _iState{0};
+    std::atomic<int> _iState{0};
     // Type
     const CSelectionCriterionType *_pType;
 
     /** Counter to know how many modifications have been applied to this criterion */
-    uint32_t _uiNbModifications{0};
+    std::atomic<uint32_t> _uiNbModifications{0};
 
     /** Application logger */
     core::log::Logger &_logger;
-- 
2.43.0


From aff16cb2ed1ea1a163a649dc50e95a95ecd405d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 27/68] fix: tuning mode could change between its check and the
 access it guards

---
 parameter/ElementHandle.cpp | 10 +++++-----
 parameter/ParameterMgr.cpp  | 14 +++++++-------
 parameter/ParameterMgr.h    |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index ecf1bcf..8b487e5 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -38,7 +38,7 @@
 #include <mutex>
 
 using std::string;
-using std::mutex;
+using std::recursive_mutex;
 using std::lock_guard;
 
 /** @return 0 by default, ie for non overloaded types. */
@@ -202,6 +202,9 @@ bool ElementHandle::setAs(const T value, string &error) const
     // Safe downcast thanks to isParameter check in checkSetValidity
     auto &parameter = static_cast<CBaseParameter &>(mElement);
 
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     // When in tuning mode, silently skip "set" requests
     if (mParameterMgr.tuningModeOn()) {
 
@@ -214,9 +217,6 @@ bool ElementHandle::setAs(const T value, string &error) const
     // copy the value
     T copy = value;
 
-    // Ensure we're safe against blackboard foreign access
-    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
-
     return parameter.access(copy, true, parameterAccessContext);
 }
 
@@ -230,7 +230,7 @@ bool ElementHandle::getAs(T &value, string &error) const
     auto &parameter = static_cast<const CBaseParameter &>(mElement);
 
     // Ensure we're safe against blackboard foreign access
-    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
 
     CParameterAccessContext parameterAccessContext(error, mParameterMgr.getParameterBlackboard());
 
diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 2212709..abf54f3 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -122,7 +122,7 @@ using std::vector;
 using std::ostringstream;
 using std::ofstream;
 using std::ifstream;
-using std::mutex;
+using std::recursive_mutex;
 using std::lock_guard;
 
 // FIXME: integrate ParameterMgr to core namespace
@@ -683,7 +683,7 @@ void CParameterMgr::applyConfigurations()
     LOG_CONTEXT("Configuration application request");
 
     // Lock state
-    lock_guard<mutex> autoLock(getBlackboardMutex());
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
 
     if (!_bTuningModeIsOn) {
 
@@ -2092,7 +2092,7 @@ bool CParameterMgr::accessValue(CParameterAccessContext &parameterAccessContext,
                                 string &strError)
 {
     // Lock state
-    lock_guard<mutex> autoLock(getBlackboardMutex());
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
 
     CPathNavigator pathNavigator(strPath);
 
@@ -2112,6 +2112,9 @@ bool CParameterMgr::accessValue(CParameterAccessContext &parameterAccessContext,
 // Tuning mode
 bool CParameterMgr::setTuningMode(bool bOn, string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     if (bOn == tuningModeOn()) {
         strError = "Tuning mode is already in the state requested";
         return false;
@@ -2123,9 +2126,6 @@ bool CParameterMgr::setTuningMode(bool bOn, string &strError)
 
         return false;
     }
-    // Lock state
-    lock_guard<mutex> autoLock(getBlackboardMutex());
-
     // Warn domains about exiting tuning mode
     if (!bOn) {
 
@@ -2728,7 +2728,7 @@ bool CParameterMgr::checkTuningModeOn(string &strError) const
 }
 
 // Tuning mutex dynamic parameter handling
-std::mutex &CParameterMgr::getBlackboardMutex()
+std::recursive_mutex &CParameterMgr::getBlackboardMutex() const
 {
     return _blackboardMutex;
 }
diff --git a/parameter/ParameterMgr.h b/parameter/ParameterMgr.h
index e3bba85..709c4a3 100644
--- a/parameter/ParameterMgr.h
+++ b/parameter/ParameterMgr.h
@@ -631,7 +631,7 @@ private:
     bool checkTuningModeOn(std::string &strError) const;
 
     // Blackboard (dynamic parameter handling)
-    std::mutex &getBlackboardMutex();
+    std::recursive_mutex &getBlackboardMutex() const;
 
     // Blackboard reference (dynamic parameter handling)
     CParameterBlackboard *getParameterBlackboard();
@@ -879,7 +879,7 @@ private:
     size_t _maxCommandUsageLength{0};
 
     // Blackboard access mutex
-    std::mutex _blackboardMutex;
+    mutable std::recursive_mutex _blackboardMutex;
 
     /** Application main logger based on the one provided by the client */
     mutable core::log::Logger _logger;
-- 
2.43.0


From 4ab234cf33a6559d8448d4ef556b58ad462ef8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 28/68] fix: domain edits, settings accesses and
 synchronizations raced with configuration application

---
 parameter/ParameterMgr.cpp | 90 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 90 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index abf54f3..e2ef606 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -785,6 +785,9 @@ ElementHandle *CParameterMgr::createElementHandle(const std::string &path, std::
 void CParameterMgr::getSettingsAsBytes(const CConfigurableElement &element,
                                        std::vector<uint8_t> &settings) const
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // Not useful as the get can not fail,
     // but the current design forces all serialization and deserialization to
     // have an error out string
@@ -802,6 +805,9 @@ void CParameterMgr::getSettingsAsBytes(const CConfigurableElement &element,
 bool CParameterMgr::setSettingsAsBytes(const CConfigurableElement &element,
                                        const std::vector<uint8_t> &settings, std::string &error)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // Prepare parameter access context for main blackboard.
     // Notes:
     //     - No need to handle output raw format and value space as Byte arrays are interpreted as
@@ -1524,6 +1530,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementBytesComm
 bool CParameterMgr::getSettingsAsXML(const CConfigurableElement *configurableElement,
                                      string &result) const
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     string error;
     CConfigurationAccessContext configContext(error, _pMainParameterBlackboard, _bValueSpaceIsRaw,
                                               _bOutputRawFormatIsHex, true);
@@ -1549,6 +1558,9 @@ bool CParameterMgr::getSettingsAsXML(const CConfigurableElement *configurableEle
 bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
                                      const string &settings, string &error)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     CConfigurationAccessContext configContext(error, _pMainParameterBlackboard, _bValueSpaceIsRaw,
                                               _bOutputRawFormatIsHex, false);
 
@@ -1960,6 +1972,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::getSystemClassXMLCo
 bool CParameterMgr::accessParameterValue(const string &strPath, string &strValue, bool bSet,
                                          string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // Forbid write access when not in TuningMode
     if (bSet && !checkTuningModeOn(strError)) {
 
@@ -2011,6 +2026,9 @@ bool CParameterMgr::accessConfigurationValue(const string &strDomain,
                                              const string &strConfiguration, const string &strPath,
                                              string &strValue, bool bSet, string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     CElementLocator elementLocator(getSystemClass());
 
     CElement *pLocatedElement = nullptr;
@@ -2171,6 +2189,9 @@ bool CParameterMgr::outputRawFormatIsHex()
 // Automatic hardware synchronization control (during tuning session)
 bool CParameterMgr::setAutoSync(bool bAutoSyncOn, string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // Warn domains about turning auto sync back on
     if (bAutoSyncOn && !_bAutoSyncOn) {
 
@@ -2196,6 +2217,9 @@ bool CParameterMgr::autoSyncOn() const
 // Manual hardware synchronization control (during tuning session)
 bool CParameterMgr::sync(string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // Warn domains about turning auto sync back on
     if (_bAutoSyncOn) {
 
@@ -2223,6 +2247,9 @@ bool CParameterMgr::sync(string &strError)
 // Configuration/Domains handling
 bool CParameterMgr::createDomain(const string &strName, string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Creating configurable domain " + strName);
     // Check tuning mode
     if (!checkTuningModeOn(strError)) {
@@ -2236,6 +2263,9 @@ bool CParameterMgr::createDomain(const string &strName, string &strError)
 
 bool CParameterMgr::deleteDomain(const string &strName, string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Deleting configurable domain '" + strName + "'");
 
     // Check tuning mode
@@ -2251,6 +2281,9 @@ bool CParameterMgr::deleteDomain(const string &strName, string &strError)
 
 bool CParameterMgr::renameDomain(const string &strName, const string &strNewName, string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Renaming configurable domain '" + strName + "' to '" + strNewName + "'");
 
     // Delegate to configurable domains
@@ -2260,6 +2293,9 @@ bool CParameterMgr::renameDomain(const string &strName, const string &strNewName
 
 bool CParameterMgr::deleteAllDomains(string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Deleting all configurable domains");
 
     // Check tuning mode
@@ -2279,6 +2315,9 @@ bool CParameterMgr::deleteAllDomains(string &strError)
 bool CParameterMgr::setSequenceAwareness(const string &strName, bool bSequenceAware,
                                          string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Making domain '" + strName + "' sequence " +
                 (bSequenceAware ? "aware" : "unaware"));
     // Check tuning mode
@@ -2296,12 +2335,18 @@ bool CParameterMgr::setSequenceAwareness(const string &strName, bool bSequenceAw
 bool CParameterMgr::getSequenceAwareness(const string &strName, bool &bSequenceAware,
                                          string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     return getConfigurableDomains()->getSequenceAwareness(strName, bSequenceAware, strResult);
 }
 
 bool CParameterMgr::createConfiguration(const string &strDomain, const string &strConfiguration,
                                         string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Creating domain configuration '" + strConfiguration + "' into domain '" +
                 strDomain + "'");
     // Check tuning mode
@@ -2319,6 +2364,9 @@ bool CParameterMgr::createConfiguration(const string &strDomain, const string &s
 bool CParameterMgr::renameConfiguration(const string &strDomain, const string &strConfiguration,
                                         const string &strNewConfiguration, string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Renaming domain '" + strDomain + "''s configuration '" + strConfiguration +
                 "' to '" + strNewConfiguration + "'");
 
@@ -2330,6 +2378,9 @@ bool CParameterMgr::renameConfiguration(const string &strDomain, const string &s
 bool CParameterMgr::deleteConfiguration(const string &strDomain, const string &strConfiguration,
                                         string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Deleting configuration '" + strConfiguration + "' from domain '" + strDomain +
                 "'");
 
@@ -2349,6 +2400,9 @@ bool CParameterMgr::deleteConfiguration(const string &strDomain, const string &s
 bool CParameterMgr::restoreConfiguration(const string &strDomain, const string &strConfiguration,
                                          core::Results &errors)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     string strError;
     LOG_CONTEXT("Restoring domain '" + strDomain + "''s configuration '" + strConfiguration +
                 "' to parameter blackboard");
@@ -2370,6 +2424,9 @@ bool CParameterMgr::restoreConfiguration(const string &strDomain, const string &
 bool CParameterMgr::saveConfiguration(const string &strDomain, const string &strConfiguration,
                                       string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Saving domain '" + strDomain + "' configuration '" + strConfiguration +
                 "' from parameter blackboard");
     // Check tuning mode
@@ -2390,6 +2447,9 @@ bool CParameterMgr::addConfigurableElementToDomain(const string &strDomain,
                                                    const string &strConfigurableElementPath,
                                                    string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Adding configurable element '" + strConfigurableElementPath + "' to domain '" +
                 strDomain + "'");
     // Check tuning mode
@@ -2432,6 +2492,9 @@ bool CParameterMgr::removeConfigurableElementFromDomain(const string &strDomain,
                                                         const string &strConfigurableElementPath,
                                                         string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Removing configurable element '" + strConfigurableElementPath + "' from domain '" +
                 strDomain + "'");
 
@@ -2465,6 +2528,9 @@ bool CParameterMgr::removeConfigurableElementFromDomain(const string &strDomain,
 bool CParameterMgr::split(const string &strDomain, const string &strConfigurableElementPath,
                           string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Splitting configurable element '" + strConfigurableElementPath + "' domain '" +
                 strDomain + "'");
     // Check tuning mode
@@ -2506,6 +2572,9 @@ bool CParameterMgr::setElementSequence(const string &strDomain, const string &st
                                        const std::vector<string> &astrNewElementSequence,
                                        string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // Check tuning mode
     if (!checkTuningModeOn(strError)) {
 
@@ -2519,12 +2588,18 @@ bool CParameterMgr::setElementSequence(const string &strDomain, const string &st
 bool CParameterMgr::getApplicationRule(const string &strDomain, const string &strConfiguration,
                                        string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     return getConfigurableDomains()->getApplicationRule(strDomain, strConfiguration, strResult);
 }
 
 bool CParameterMgr::setApplicationRule(const string &strDomain, const string &strConfiguration,
                                        const string &strApplicationRule, string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     return getConfigurableDomains()->setApplicationRule(
         strDomain, strConfiguration, strApplicationRule,
         getConstSelectionCriteria()->getSelectionCriteriaDefinition(), strError);
@@ -2533,12 +2608,18 @@ bool CParameterMgr::setApplicationRule(const string &strDomain, const string &st
 bool CParameterMgr::clearApplicationRule(const string &strDomain, const string &strConfiguration,
                                          string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     return getConfigurableDomains()->clearApplicationRule(strDomain, strConfiguration, strError);
 }
 
 bool CParameterMgr::importDomainsXml(const string &xmlSource, bool withSettings, bool fromFile,
                                      string &errorMsg)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // Check tuning mode
     if (!checkTuningModeOn(errorMsg)) {
 
@@ -2566,6 +2647,9 @@ bool CParameterMgr::importDomainsXml(const string &xmlSource, bool withSettings,
 bool CParameterMgr::importSingleDomainXml(const string &xmlSource, bool overwrite,
                                           bool withSettings, bool fromFile, string &errorMsg)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     if (!checkTuningModeOn(errorMsg)) {
 
         return false;
@@ -2641,6 +2725,9 @@ bool CParameterMgr::serializeElement(std::ostream &output,
 bool CParameterMgr::exportDomainsXml(string &xmlDest, bool withSettings, bool toFile,
                                      string &errorMsg) const
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Exporting domains to " +
                 (toFile ? ('"' + xmlDest + '"') : "a user-provided buffer"));
 
@@ -2652,6 +2739,9 @@ bool CParameterMgr::exportDomainsXml(string &xmlDest, bool withSettings, bool to
 bool CParameterMgr::exportSingleDomainXml(string &xmlDest, const string &domainName,
                                           bool withSettings, bool toFile, string &errorMsg) const
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     LOG_CONTEXT("Exporting single domain '" + domainName + "' to " +
                 (toFile ? ('"' + xmlDest + '"') : "a user-provided buffer"));
 
-- 
2.43.0


From b8306ad13e211fa2f13367b679eeefa5ac7c8531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 29/68] fix: typed read of an integer returned another value
 than the stored one

---
 parameter/IntegerParameterType.h | 37 ++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index 797cd44..e7bc2e4 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -233,6 +233,43 @@ public:
         }
     }
 
+    // Unsigned Integer
+    bool fromBlackboard(uint32_t &uiUserValue, uint32_t uiValue,
+                        CParameterAccessContext &parameterAccessContext) const override
+    {
+        int32_t iValue = uiValue;
+
+        signExtend(iValue);
+
+        if (isSigned && iValue < 0) {
+
+            parameterAccessContext.setError("Value out of range");
+
+            return false;
+        }
+        return Base::fromBlackboard(uiUserValue, uiValue, parameterAccessContext);
+    }
+
+    // Signed Integer
+    bool fromBlackboard(int32_t &iUserValue, uint32_t uiValue,
+                        CParameterAccessContext &parameterAccessContext) const override
+    {
+        if (isSigned) {
+
+            return Base::fromBlackboard(iUserValue, uiValue, parameterAccessContext);
+        }
+
+        if (uiValue > static_cast<uint32_t>(std::numeric_limits<int32_t>::max())) {
+
+            parameterAccessContext.setError("Value out of range");
+
+            return false;
+        }
+        iUserValue = static_cast<int32_t>(uiValue);
+
+        return true;
+    }
+
     bool fromBlackboard(double &dUserValue, uint32_t uiValue,
                         CParameterAccessContext &parameterAccessContext) const override
     {
-- 
2.43.0


From 121a744ae92ffa2d53b88bf9c575c128707ef860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 30/68] fix: typed write of an integer was checked against a
 misinterpreted range

---
 parameter/IntegerParameterType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index e7bc2e4..613fa1d 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -72,8 +72,8 @@ private:
                         CParameterAccessContext &parameterAccessContext) const
     {
         {
-            if (userValue < static_cast<UserType>(_min) ||
-                userValue > static_cast<UserType>(_max)) {
+            // Signedness of the user value and of the type may differ
+            if (static_cast<int64_t>(userValue) < _min || static_cast<int64_t>(userValue) > _max) {
 
                 parameterAccessContext.setError("Value out of range");
                 return false;
-- 
2.43.0


From 32e06fd999a6423aac3be21f67ad398439850b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 31/68] fix: the description of an element was never available
 through its handle

---
 parameter/Element.cpp                     | 9 ++++-----
 parameter/Element.h                       | 2 +-
 parameter/InstanceConfigurableElement.cpp | 6 ++++++
 parameter/InstanceConfigurableElement.h   | 2 ++
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/parameter/Element.cpp b/parameter/Element.cpp
index 611951c..8808536 100644
--- a/parameter/Element.cpp
+++ b/parameter/Element.cpp
@@ -129,8 +129,8 @@ void CElement::showProperties(string &strResult) const
 
 void CElement::showDescriptionProperty(std::string &strResult) const
 {
-    if (!getDescription().empty()) {
-        strResult += gDescriptionPropertyName + ": " + getDescription() + "\n";
+    if (!_strDescription.empty()) {
+        strResult += gDescriptionPropertyName + ": " + _strDescription + "\n";
     }
 }
 
@@ -214,9 +214,8 @@ void CElement::toXml(CXmlElement &xmlElement, CXmlSerializingContext &serializin
 
 void CElement::setXmlDescriptionAttribute(CXmlElement &xmlElement) const
 {
-    const string &description = getDescription();
-    if (!description.empty()) {
-        xmlElement.setAttribute(gDescriptionPropertyName, description);
+    if (!_strDescription.empty()) {
+        xmlElement.setAttribute(gDescriptionPropertyName, _strDescription);
     }
 }
 
diff --git a/parameter/Element.h b/parameter/Element.h
index b7cdc6d..e91f7fe 100644
--- a/parameter/Element.h
+++ b/parameter/Element.h
@@ -53,7 +53,7 @@ public:
 
     // Description
     void setDescription(const std::string &strDescription);
-    const std::string &getDescription() const;
+    virtual const std::string &getDescription() const;
 
     // Name / Path
     const std::string &getName() const;
diff --git a/parameter/InstanceConfigurableElement.cpp b/parameter/InstanceConfigurableElement.cpp
index 25a7ec9..282d6fe 100644
--- a/parameter/InstanceConfigurableElement.cpp
+++ b/parameter/InstanceConfigurableElement.cpp
@@ -43,6 +43,12 @@ CInstanceConfigurableElement::CInstanceConfigurableElement(const std::string &st
 {
 }
 
+const std::string &CInstanceConfigurableElement::getDescription() const
+{
+    // Delegate
+    return _pTypeElement->getDescription();
+}
+
 std::string CInstanceConfigurableElement::getKind() const
 {
     // Delegate
diff --git a/parameter/InstanceConfigurableElement.h b/parameter/InstanceConfigurableElement.h
index d1b52f1..085de1c 100644
--- a/parameter/InstanceConfigurableElement.h
+++ b/parameter/InstanceConfigurableElement.h
@@ -70,6 +70,8 @@ public:
     std::string getFormattedMapping() const override;
 
     // From CElement
+    /** @return the description of the type, instances have none of their own */
+    const std::string &getDescription() const override;
     std::string getKind() const override;
     std::string getXmlElementName() const override;
 
-- 
2.43.0


From 213818ebbd178f228ff3f8cadc1824632a14ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 32/68] fix: the range of 8 bit integers was shown as
 characters

---
 parameter/IntegerParameterType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index 613fa1d..0ce3a51 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -313,8 +313,8 @@ public:
 
         std::ostringstream stream;
         stream << "Signed: " << (isSigned ? "yes" : "no") << "\n"
-               << "Min: " << _min << "\n"
-               << "Max: " << _max << "\n";
+               << "Min: " << std::to_string(_min) << "\n"
+               << "Max: " << std::to_string(_max) << "\n";
 
         strResult += stream.str();
 
-- 
2.43.0


From 402c2210da333ea12b1d4f725172a8a95be1cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 33/68] fix: using the C interface after a failed start aborted

---
 bindings/c/ParameterFramework.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/c/ParameterFramework.cpp b/bindings/c/ParameterFramework.cpp
index 858994b..4f12e09 100644
--- a/bindings/c/ParameterFramework.cpp
+++ b/bindings/c/ParameterFramework.cpp
@@ -285,7 +285,7 @@ bool pfwGetCriterion(const PfwHandler *handle, const char name[], int *value)
 bool pfwApplyConfigurations(const PfwHandler *handle)
 {
     Status &status = handle->lastStatus;
-    if (handle->pfw == nullptr) {
+    if (handle->pfw == nullptr or not handle->pfw->isStarted()) {
         return status.failure("Can not commit criteria "
                               "as the parameter framework is not started.");
     }
@@ -306,7 +306,7 @@ struct PfwParameterHandler_
 PfwParameterHandler *pfwBindParameter(PfwHandler *handle, const char path[])
 {
     Status &status = handle->lastStatus;
-    if (handle->pfw == nullptr) {
+    if (handle->pfw == nullptr or not handle->pfw->isStarted()) {
         status.failure("The parameter framework is not started, "
                        "while trying to bind parameter \"" +
                        string(path) + "\")");
-- 
2.43.0


From 6f296c0009754d86e926fd73a6c8f84175c1dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 34/68] fix: a component type containing itself through a block
 overflowed the stack

---
 parameter/ComponentInstance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ComponentInstance.cpp b/parameter/ComponentInstance.cpp
index 22fcdcc..0196d81 100644
--- a/parameter/ComponentInstance.cpp
+++ b/parameter/ComponentInstance.cpp
@@ -97,7 +97,7 @@ bool CComponentInstance::fromXml(const CXmlElement &xmlElement,
 
         return false;
     }
-    if (_pComponentType == getParent()) {
+    if (isDescendantOf(_pComponentType)) {
 
         serializingContext.setError("Recursive definition of " + _pComponentType->getName() +
                                     " due to " + xmlElement.getPath() +
-- 
2.43.0


From f274394eadc0a94b7ea925d7b2e1cde798a403f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 35/68] fix: a subsystem without library or instance definition
 crashed the start

---
 parameter/Subsystem.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parameter/Subsystem.cpp b/parameter/Subsystem.cpp
index c422a88..1078f90 100644
--- a/parameter/Subsystem.cpp
+++ b/parameter/Subsystem.cpp
@@ -125,15 +125,25 @@ bool CSubsystem::structureFromXml(const CXmlElement &xmlElement,
     }
 
     // XML populate ComponentLibrary
-    xmlElement.getChildElement("ComponentLibrary", childElement);
+    if (!xmlElement.getChildElement("ComponentLibrary", childElement)) {
 
+        serializingContext.setError("No ComponentLibrary element found in " + xmlElement.getPath());
+
+        return false;
+    }
     if (!_pComponentLibrary->fromXml(childElement, serializingContext)) {
 
         return false;
     }
 
-    // XML populate InstanceDefintion
-    xmlElement.getChildElement("InstanceDefintion", childElement);
+    // XML populate InstanceDefinition
+    if (!xmlElement.getChildElement("InstanceDefinition", childElement)) {
+
+        serializingContext.setError("No InstanceDefinition element found in " +
+                                    xmlElement.getPath());
+
+        return false;
+    }
     if (!_pInstanceDefinition->fromXml(childElement, serializingContext)) {
 
         return false;
-- 
2.43.0


From 05e944efe69e043d8d1a0d578611cd9e3b78ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 36/68] fix: importing a domain without configurations element
 crashed

---
 parameter/ConfigurableDomain.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index 71bb3e8..f1d7523 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -248,7 +248,12 @@ bool CConfigurableDomain::parseDomainConfigurations(const CXmlElement &xmlElemen
     // Get Configurations element
     CXmlElement xmlConfigurationsElement;
 
-    xmlElement.getChildElement("Configurations", xmlConfigurationsElement);
+    if (!xmlElement.getChildElement("Configurations", xmlConfigurationsElement)) {
+
+        serializingContext.setError("No Configurations element found in " + xmlElement.getPath());
+
+        return false;
+    }
 
     // Parse it and create domain configuration objects
     return base::fromXml(xmlConfigurationsElement, serializingContext);
@@ -262,7 +267,13 @@ bool CConfigurableDomain::parseConfigurableElements(const CXmlElement &xmlElemen
 
     // Get ConfigurableElements element
     CXmlElement xmlConfigurableElementsElement;
-    xmlElement.getChildElement("ConfigurableElements", xmlConfigurableElementsElement);
+    if (!xmlElement.getChildElement("ConfigurableElements", xmlConfigurableElementsElement)) {
+
+        serializingContext.setError("No ConfigurableElements element found in " +
+                                    xmlElement.getPath());
+
+        return false;
+    }
 
     // Parse it and associate found configurable elements to it
     CXmlElement::CChildIterator it(xmlConfigurableElementsElement);
-- 
2.43.0


From 22cc369f4e5759a75f28a00706b008abd8fda868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 37/68] fix: an included file holding something else than a
 subsystem was accepted

---
 parameter/XmlFileIncluderElement.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parameter/XmlFileIncluderElement.cpp b/parameter/XmlFileIncluderElement.cpp
index b736a24..ee8f058 100644
--- a/parameter/XmlFileIncluderElement.cpp
+++ b/parameter/XmlFileIncluderElement.cpp
@@ -81,6 +81,15 @@ bool CXmlFileIncluderElement::fromXml(const CXmlElement &xmlElement,
 
         docSource.getRootElement(childElement);
 
+        // The included element takes our place: it has to be of the kind we are standing for
+        if (childElement.getType() != strIncludedElementType) {
+
+            elementSerializingContext.setError("Unable to handle XML element: " +
+                                               childElement.getPath());
+
+            return false;
+        }
+
         // Create child element
         CElement *pChild =
             elementSerializingContext.getElementLibrary()->createElement(childElement);
-- 
2.43.0


From d61f255051163ec80ced069d457e36b720ba188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 38/68] fix: elements found in places they cannot live in
 crashed instead of being refused

---
 parameter/BaseIntegerParameterType.cpp        |  5 +++++
 parameter/BaseIntegerParameterType.h          |  1 +
 parameter/BitParameterBlockType.cpp           |  6 ++++++
 parameter/BitParameterBlockType.h             |  1 +
 parameter/ComponentLibrary.cpp                |  5 +++++
 parameter/ComponentLibrary.h                  |  1 +
 parameter/CompoundRule.cpp                    |  5 +++++
 parameter/CompoundRule.h                      |  1 +
 parameter/ConfigurableDomain.cpp              |  5 +++++
 parameter/ConfigurableDomain.h                |  1 +
 parameter/ConfigurableDomains.cpp             |  5 +++++
 parameter/ConfigurableDomains.h               |  1 +
 parameter/DomainConfiguration.cpp             |  5 +++++
 parameter/DomainConfiguration.h               |  1 +
 parameter/Element.cpp                         | 15 +++++++++++++++
 parameter/Element.h                           |  2 ++
 parameter/EnumParameterType.cpp               |  5 +++++
 parameter/EnumParameterType.h                 |  1 +
 parameter/FrameworkConfigurationGroup.h       |  5 +++++
 parameter/ParameterFrameworkConfiguration.cpp | 10 ++++++++++
 parameter/ParameterFrameworkConfiguration.h   |  1 +
 parameter/SubsystemPlugins.h                  |  5 +++++
 parameter/SystemClass.cpp                     |  8 ++++++++
 parameter/SystemClass.h                       |  1 +
 parameter/TypeElement.cpp                     | 10 ++++++++++
 parameter/TypeElement.h                       |  2 ++
 26 files changed, 108 insertions(+)

diff --git a/parameter/BaseIntegerParameterType.cpp b/parameter/BaseIntegerParameterType.cpp
index 16c60bf..58da394 100644
--- a/parameter/BaseIntegerParameterType.cpp
+++ b/parameter/BaseIntegerParameterType.cpp
@@ -47,6 +47,11 @@ bool CBaseIntegerParameterType::childrenAreDynamic() const
     return true;
 }
 
+bool CBaseIntegerParameterType::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CParameterAdaptation *>(&child) != nullptr;
+}
+
 bool CBaseIntegerParameterType::fromBlackboard(uint32_t &uiUserValue, uint32_t uiValue,
                                                CParameterAccessContext & /*ctx*/) const
 {
diff --git a/parameter/BaseIntegerParameterType.h b/parameter/BaseIntegerParameterType.h
index b39816c..79eaf3e 100644
--- a/parameter/BaseIntegerParameterType.h
+++ b/parameter/BaseIntegerParameterType.h
@@ -68,4 +68,5 @@ protected:
 private:
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
 };
diff --git a/parameter/BitParameterBlockType.cpp b/parameter/BitParameterBlockType.cpp
index 5a462d2..15e8168 100644
--- a/parameter/BitParameterBlockType.cpp
+++ b/parameter/BitParameterBlockType.cpp
@@ -28,6 +28,7 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "BitParameterBlockType.h"
+#include "BitParameterType.h"
 #include "BitParameterBlock.h"
 #include "Utility.h"
 
@@ -49,6 +50,11 @@ bool CBitParameterBlockType::childrenAreDynamic() const
     return true;
 }
 
+bool CBitParameterBlockType::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CBitParameterType *>(&child) != nullptr;
+}
+
 // Size
 size_t CBitParameterBlockType::getSize() const
 {
diff --git a/parameter/BitParameterBlockType.h b/parameter/BitParameterBlockType.h
index 58b42d4..4739cc6 100644
--- a/parameter/BitParameterBlockType.h
+++ b/parameter/BitParameterBlockType.h
@@ -53,6 +53,7 @@ public:
 
 private:
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
     // Instantiation
     CInstanceConfigurableElement *doInstantiate() const override;
 
diff --git a/parameter/ComponentLibrary.cpp b/parameter/ComponentLibrary.cpp
index 8b27c46..2e173e9 100644
--- a/parameter/ComponentLibrary.cpp
+++ b/parameter/ComponentLibrary.cpp
@@ -36,6 +36,11 @@ bool CComponentLibrary::childrenAreDynamic() const
     return true;
 }
 
+bool CComponentLibrary::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CComponentType *>(&child) != nullptr;
+}
+
 std::string CComponentLibrary::getKind() const
 {
     return "ComponentLibrary";
diff --git a/parameter/ComponentLibrary.h b/parameter/ComponentLibrary.h
index a58a509..a00624f 100644
--- a/parameter/ComponentLibrary.h
+++ b/parameter/ComponentLibrary.h
@@ -50,4 +50,5 @@ public:
 
 private:
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
 };
diff --git a/parameter/CompoundRule.cpp b/parameter/CompoundRule.cpp
index e69592b..7f0b3ed 100644
--- a/parameter/CompoundRule.cpp
+++ b/parameter/CompoundRule.cpp
@@ -49,6 +49,11 @@ bool CCompoundRule::childrenAreDynamic() const
     return true;
 }
 
+bool CCompoundRule::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CRule *>(&child) != nullptr;
+}
+
 // Content dumping
 string CCompoundRule::logValue(utility::ErrorContext & /*ctx*/) const
 {
diff --git a/parameter/CompoundRule.h b/parameter/CompoundRule.h
index bc3ef35..d9b9f04 100644
--- a/parameter/CompoundRule.h
+++ b/parameter/CompoundRule.h
@@ -61,6 +61,7 @@ private:
 
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
 
     // Type
     bool _bTypeAll{false};
diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index f1d7523..fa5477b 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -79,6 +79,11 @@ bool CConfigurableDomain::childrenAreDynamic() const
     return true;
 }
 
+bool CConfigurableDomain::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CDomainConfiguration *>(&child) != nullptr;
+}
+
 // Content dumping
 string CConfigurableDomain::logValue(utility::ErrorContext & /*ctx*/) const
 {
diff --git a/parameter/ConfigurableDomain.h b/parameter/ConfigurableDomain.h
index 736ed8f..0c582b1 100644
--- a/parameter/ConfigurableDomain.h
+++ b/parameter/ConfigurableDomain.h
@@ -171,6 +171,7 @@ private:
     // Returns true if children dynamic creation is to be dealt with (here, will allow child
     // deletion upon clean)
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
 
     // Ensure validity on areas related to configurable element
     void validateAreas(const CConfigurableElement *pConfigurableElement,
diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index faceb7c..01792b1 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -46,6 +46,11 @@ bool CConfigurableDomains::childrenAreDynamic() const
     return true;
 }
 
+bool CConfigurableDomains::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CConfigurableDomain *>(&child) != nullptr;
+}
+
 // Ensure validity on whole domains from main blackboard
 void CConfigurableDomains::validate(const CParameterBlackboard *pMainBlackboard)
 {
diff --git a/parameter/ConfigurableDomains.h b/parameter/ConfigurableDomains.h
index 5a096a5..bee9d12 100644
--- a/parameter/ConfigurableDomains.h
+++ b/parameter/ConfigurableDomains.h
@@ -190,6 +190,7 @@ private:
     void deleteDomain(CConfigurableDomain &configurableDomain);
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
     // Gather owned configurable elements owned by any domain
     void gatherAllOwnedConfigurableElements(
         std::set<const CConfigurableElement *> &configurableElementSet) const;
diff --git a/parameter/DomainConfiguration.cpp b/parameter/DomainConfiguration.cpp
index 13c9d6b..94cd21c 100644
--- a/parameter/DomainConfiguration.cpp
+++ b/parameter/DomainConfiguration.cpp
@@ -62,6 +62,11 @@ bool CDomainConfiguration::childrenAreDynamic() const
     return true;
 }
 
+bool CDomainConfiguration::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CCompoundRule *>(&child) != nullptr;
+}
+
 // XML configuration settings parsing
 bool CDomainConfiguration::parseSettings(CXmlElement &xmlConfigurationSettingsElement,
                                          CXmlDomainImportContext &context)
diff --git a/parameter/DomainConfiguration.h b/parameter/DomainConfiguration.h
index 5160369..f49994a 100644
--- a/parameter/DomainConfiguration.h
+++ b/parameter/DomainConfiguration.h
@@ -131,6 +131,7 @@ private:
     // Returns true if children dynamic creation is to be dealt with (here, will allow child
     // deletion upon clean)
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
     // XML configuration settings serializing
     bool importOneConfigurableElementSettings(CAreaConfiguration *areaConfiguration,
                                               CXmlElement &xmlConfigurableElementSettingsElement,
diff --git a/parameter/Element.cpp b/parameter/Element.cpp
index 8808536..568f2b6 100644
--- a/parameter/Element.cpp
+++ b/parameter/Element.cpp
@@ -67,6 +67,12 @@ bool CElement::childrenAreDynamic() const
     return false;
 }
 
+bool CElement::acceptsChild(const CElement & /*child*/) const
+{
+    // By default, any kind of element
+    return true;
+}
+
 bool CElement::init(string &strError)
 {
 
@@ -313,6 +319,15 @@ CElement *CElement::createChild(const CXmlElement &childElement,
 
         return nullptr;
     }
+    if (!acceptsChild(*pChild)) {
+
+        delete pChild;
+
+        elementSerializingContext.setError("Unable to handle XML element: " +
+                                           childElement.getPath());
+
+        return nullptr;
+    }
     // Store created child!
     addChild(pChild);
 
diff --git a/parameter/Element.h b/parameter/Element.h
index e91f7fe..eb2583c 100644
--- a/parameter/Element.h
+++ b/parameter/Element.h
@@ -179,6 +179,8 @@ private:
     std::string getPathName() const;
     // Returns true if children dynamic creation is to be dealt with
     virtual bool childrenAreDynamic() const;
+    // Returns true if the given element, just created from XML, may become a child of this one
+    virtual bool acceptsChild(const CElement &child) const;
     // House keeping
     void removeChildren();
     // Fill XmlElement during XML composing
diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index ed33b81..df3cbfb 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -52,6 +52,11 @@ bool CEnumParameterType::childrenAreDynamic() const
     return true;
 }
 
+bool CEnumParameterType::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CEnumValuePair *>(&child) != nullptr;
+}
+
 // Element properties
 void CEnumParameterType::showProperties(string &strResult) const
 {
diff --git a/parameter/EnumParameterType.h b/parameter/EnumParameterType.h
index 2103377..d289fbb 100644
--- a/parameter/EnumParameterType.h
+++ b/parameter/EnumParameterType.h
@@ -74,6 +74,7 @@ private:
 
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
 
     // Literal - numerical conversions
     bool getLiteral(int32_t iNumerical, std::string &strLiteral) const;
diff --git a/parameter/FrameworkConfigurationGroup.h b/parameter/FrameworkConfigurationGroup.h
index 27fdc18..ff0435a 100644
--- a/parameter/FrameworkConfigurationGroup.h
+++ b/parameter/FrameworkConfigurationGroup.h
@@ -30,6 +30,7 @@
 #pragma once
 
 #include "KindElement.h"
+#include "FrameworkConfigurationLocation.h"
 
 #include <string>
 
@@ -43,4 +44,8 @@ public:
 
 private:
     bool childrenAreDynamic() const override { return true; }
+    bool acceptsChild(const CElement &child) const override
+    {
+        return dynamic_cast<const CFrameworkConfigurationLocation *>(&child) != nullptr;
+    }
 };
diff --git a/parameter/ParameterFrameworkConfiguration.cpp b/parameter/ParameterFrameworkConfiguration.cpp
index bf735fd..cc50273 100644
--- a/parameter/ParameterFrameworkConfiguration.cpp
+++ b/parameter/ParameterFrameworkConfiguration.cpp
@@ -28,6 +28,9 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "ParameterFrameworkConfiguration.h"
+#include "FrameworkConfigurationGroup.h"
+#include "FrameworkConfigurationLocation.h"
+#include "SubsystemPlugins.h"
 
 #define base CElement
 
@@ -41,6 +44,13 @@ bool CParameterFrameworkConfiguration::childrenAreDynamic() const
     return true;
 }
 
+bool CParameterFrameworkConfiguration::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CSubsystemPlugins *>(&child) != nullptr ||
+           dynamic_cast<const CFrameworkConfigurationLocation *>(&child) != nullptr ||
+           dynamic_cast<const CFrameworkConfigurationGroup *>(&child) != nullptr;
+}
+
 // System class name
 const std::string &CParameterFrameworkConfiguration::getSystemClassName() const
 {
diff --git a/parameter/ParameterFrameworkConfiguration.h b/parameter/ParameterFrameworkConfiguration.h
index 8972beb..d1de01d 100644
--- a/parameter/ParameterFrameworkConfiguration.h
+++ b/parameter/ParameterFrameworkConfiguration.h
@@ -52,6 +52,7 @@ public:
 private:
     std::string getKind() const override;
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
 
     // System class name
     std::string _strSystemClassName;
diff --git a/parameter/SubsystemPlugins.h b/parameter/SubsystemPlugins.h
index 5123c28..75423ff 100644
--- a/parameter/SubsystemPlugins.h
+++ b/parameter/SubsystemPlugins.h
@@ -30,6 +30,7 @@
 #pragma once
 
 #include "KindElement.h"
+#include "PluginLocation.h"
 #include <string>
 
 class CSubsystemPlugins : public CKindElement
@@ -43,4 +44,8 @@ public:
 
 private:
     bool childrenAreDynamic() const override { return true; }
+    bool acceptsChild(const CElement &child) const override
+    {
+        return dynamic_cast<const CPluginLocation *>(&child) != nullptr;
+    }
 };
diff --git a/parameter/SystemClass.cpp b/parameter/SystemClass.cpp
index ef2383b..a56af71 100644
--- a/parameter/SystemClass.cpp
+++ b/parameter/SystemClass.cpp
@@ -29,6 +29,8 @@
  */
 #include <algorithm>
 #include "SystemClass.h"
+#include "XmlFileIncluderElement.h"
+#include "Subsystem.h"
 #include "SubsystemLibrary.h"
 #include "VirtualSubsystem.h"
 #include "LoggingElementBuilderTemplate.h"
@@ -74,6 +76,12 @@ bool CSystemClass::childrenAreDynamic() const
     return true;
 }
 
+bool CSystemClass::acceptsChild(const CElement &child) const
+{
+    return dynamic_cast<const CSubsystem *>(&child) != nullptr ||
+           dynamic_cast<const CXmlFileIncluderElement *>(&child) != nullptr;
+}
+
 string CSystemClass::getKind() const
 {
     return "SystemClass";
diff --git a/parameter/SystemClass.h b/parameter/SystemClass.h
index bb9a8aa..081d201 100644
--- a/parameter/SystemClass.h
+++ b/parameter/SystemClass.h
@@ -91,6 +91,7 @@ private:
     CSystemClass &operator=(const CSystemClass &);
     // base
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const CElement &child) const override;
 
     /** Load shared libraries subsystem plugins.
      *
diff --git a/parameter/TypeElement.cpp b/parameter/TypeElement.cpp
index e6b9276..5d62863 100644
--- a/parameter/TypeElement.cpp
+++ b/parameter/TypeElement.cpp
@@ -31,6 +31,8 @@
 #include "MappingData.h"
 #include "Tokenizer.h"
 #include "InstanceConfigurableElement.h"
+#include "BitParameterType.h"
+#include "ComponentType.h"
 #include "Utility.h"
 #include <list>
 #include <assert.h>
@@ -104,6 +106,14 @@ void CTypeElement::populate(CElement *pElement) const
     }
 }
 
+bool CTypeElement::acceptsChild(const CElement &child) const
+{
+    // Types that can be instantiated anywhere
+    return dynamic_cast<const CTypeElement *>(&child) != nullptr &&
+           dynamic_cast<const CBitParameterType *>(&child) == nullptr &&
+           dynamic_cast<const CComponentType *>(&child) == nullptr;
+}
+
 bool CTypeElement::fromXml(const CXmlElement &xmlElement,
                            CXmlSerializingContext &serializingContext)
 {
diff --git a/parameter/TypeElement.h b/parameter/TypeElement.h
index e73987c..31c580f 100644
--- a/parameter/TypeElement.h
+++ b/parameter/TypeElement.h
@@ -98,6 +98,8 @@ protected:
     std::string getFormattedMapping(const CTypeElement *predecessor) const;
 
 private:
+    bool acceptsChild(const CElement &child) const override;
+
     CTypeElement(const CTypeElement &);
     CTypeElement &operator=(const CTypeElement &);
     // Actual instance creation
-- 
2.43.0


From 8c5de1e88e30219f91ba4f7157a2c7f6706dfce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 39/68] fix: replace every amendment of a mapping value, also
 after one that has no value

---
 parameter/FormattedSubsystemObject.cpp | 42 +++++++++++---------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/parameter/FormattedSubsystemObject.cpp b/parameter/FormattedSubsystemObject.cpp
index dc7dded..aa2df6c 100644
--- a/parameter/FormattedSubsystemObject.cpp
+++ b/parameter/FormattedSubsystemObject.cpp
@@ -80,42 +80,36 @@ string CFormattedSubsystemObject::formatMappingValue(const string &strMappingVal
                                                      size_t firstAmendKey, size_t nbAmendKeys,
                                                      const CMappingContext &context)
 {
-    string strFormattedValue = strMappingValue;
-
-    // Search for amendment (only one supported for now)
-    string::size_type uiPercentPos = strFormattedValue.find('%', 0);
-
     // Amendment limited to one digit (values from 1 to 9)
     assert(isAmendKeyValid(nbAmendKeys));
 
-    // Check we found one and that there's room for value
-    if (uiPercentPos != string::npos && uiPercentPos < strFormattedValue.size() - 1) {
+    string strFormattedValue;
 
-        // Get Amend number
-        size_t uiAmendNumber = strFormattedValue[uiPercentPos + 1] - '0';
+    for (size_t pos = 0; pos < strMappingValue.size(); pos++) {
 
-        // Check if current Amend number is Valid
-        if ((uiAmendNumber > 0) && (uiAmendNumber <= nbAmendKeys)) {
+        // Check we found an amendment and that there's room for its number
+        if (strMappingValue[pos] == '%' && pos + 1 < strMappingValue.size()) {
 
-            size_t uiAmendType = firstAmendKey + uiAmendNumber - 1;
+            // Get Amend number
+            size_t uiAmendNumber = strMappingValue[pos + 1] - '0';
 
-            // Check if current Amend type is Set in the context
-            if (context.iSet(uiAmendType)) {
+            // Check if current Amend number is Valid
+            if ((uiAmendNumber > 0) && (uiAmendNumber <= nbAmendKeys)) {
 
-                // Make the amendment on the part of the string after the current Amend
-                string strEndOfLine = strFormattedValue.substr(
-                    uiPercentPos + 2, strFormattedValue.size() - uiPercentPos - 2);
-                string strEndOfLineAmended =
-                    formatMappingValue(strEndOfLine, firstAmendKey, nbAmendKeys, context);
+                size_t uiAmendType = firstAmendKey + uiAmendNumber - 1;
 
-                // Get current Amend value
-                string strAmendValue = context.getItem(uiAmendType);
+                // Check if current Amend type is Set in the context
+                if (context.iSet(uiAmendType)) {
 
-                // Make the amendment
-                strFormattedValue =
-                    strFormattedValue.substr(0, uiPercentPos) + strAmendValue + strEndOfLineAmended;
+                    // Make the amendment
+                    strFormattedValue += context.getItem(uiAmendType);
+                    pos++;
+                    continue;
+                }
             }
         }
+        // Not an amendment: keep as is
+        strFormattedValue += strMappingValue[pos];
     }
     return strFormattedValue;
 }
-- 
2.43.0


From b1d7b07c4febe5a3becf233daff43d5ac4f65eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 40/68] fix: refuse a compound rule whose type is neither All
 nor Any

---
 parameter/CompoundRule.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parameter/CompoundRule.cpp b/parameter/CompoundRule.cpp
index 7f0b3ed..b302ec7 100644
--- a/parameter/CompoundRule.cpp
+++ b/parameter/CompoundRule.cpp
@@ -137,6 +137,13 @@ bool CCompoundRule::fromXml(const CXmlElement &xmlElement,
     // Get type
     string strType;
     xmlElement.getAttribute("Type", strType);
+    if (strType != _apcTypes[true] && strType != _apcTypes[false]) {
+
+        serializingContext.setError("Wrong Type attribute value " + strType + " in " + getKind() +
+                                    " " + xmlElement.getPath());
+
+        return false;
+    }
     _bTypeAll = strType == _apcTypes[true];
 
     // Base
-- 
2.43.0


From bc827459b48d10f54b4ea42942835be096ae452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 41/68] fix: an attribute of a document's root element which
 cannot be converted threw out of the framework

---
 parameter/ParameterMgr.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index e2ef606..bdae15a 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -44,6 +44,7 @@
 #include "SelectionCriteria.h"
 #include "ComponentType.h"
 #include "ComponentInstance.h"
+#include "PfError.hpp"
 #include "ParameterBlockType.h"
 #include "BooleanParameterType.h"
 #include "IntegerParameterBuilder.h"
@@ -641,12 +642,20 @@ bool CParameterMgr::xmlParse(CXmlElementSerializingContext &elementSerializingCo
 
     CXmlMemoryDocSink memorySink(pRootElement);
 
-    if (!memorySink.process(docSource, elementSerializingContext)) {
+    bool success = false;
+
+    try {
+        success = memorySink.process(docSource, elementSerializingContext);
+    } catch (const PfError &e) {
+        // An attribute of the root element could not be converted
+        elementSerializingContext.appendLineToError(e.what());
+    }
+
+    if (!success) {
         clean();
-        return false;
     }
 
-    return true;
+    return success;
 }
 
 // Init
-- 
2.43.0


From ffa8ad48512a73a5fb73fba36d0bd4872f26bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 42/68] fix: writing the XML settings of an element always
 failed when schema validation was on

---
 parameter/ParameterMgr.cpp | 9 +++++----
 parameter/ParameterMgr.h   | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index bdae15a..03e02f4 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -622,13 +622,14 @@ bool CParameterMgr::loadSettingsFromConfigFile(string &strError)
 bool CParameterMgr::xmlParse(CXmlElementSerializingContext &elementSerializingContext,
                              CElement *pRootElement, _xmlDoc *doc, const string &baseUri,
                              CParameterMgr::ElementLibrary eElementLibrary, bool replace,
-                             const string &strNameAttributeName)
+                             const string &strNameAttributeName, bool hasSchema)
 {
     // Init serializing context
     elementSerializingContext.set(_pElementLibrarySet->getElementLibrary(eElementLibrary), baseUri);
 
-    CXmlDocSource docSource(doc, _bValidateSchemasOnStart, pRootElement->getXmlElementName(),
-                            pRootElement->getName(), strNameAttributeName);
+    CXmlDocSource docSource(doc, hasSchema && _bValidateSchemasOnStart,
+                            pRootElement->getXmlElementName(), pRootElement->getName(),
+                            strNameAttributeName);
 
     docSource.setSchemaBaseUri(getSchemaUri());
 
@@ -1582,7 +1583,7 @@ bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
         return false;
     }
     if (not xmlParse(xmlParameterContext, configurableElement, doc, "",
-                     EParameterConfigurationLibrary, false)) {
+                     EParameterConfigurationLibrary, false, "Name", false)) {
         return false;
     }
     if (_bAutoSyncOn) {
diff --git a/parameter/ParameterMgr.h b/parameter/ParameterMgr.h
index 709c4a3..8dbeaf1 100644
--- a/parameter/ParameterMgr.h
+++ b/parameter/ParameterMgr.h
@@ -714,12 +714,14 @@ private:
      * @param[in] eElementLibrary which element library to be used
      * @param[in] replace Should the element be overridden or modified in place
      * @param[in] strNameAttributeName the name of the element's XML "name" attribute
+     * @param[in] hasSchema false for the documents no schema describes: they are never validated
      *
      * @returns true if parsing succeeded, false otherwise
      */
     bool xmlParse(CXmlElementSerializingContext &elementSerializingContext, CElement *pRootElement,
                   _xmlDoc *doc, const std::string &baseUri, ElementLibrary eElementLibrary,
-                  bool replace = true, const std::string &strNameAttributeName = "Name");
+                  bool replace = true, const std::string &strNameAttributeName = "Name",
+                  bool hasSchema = true);
 
     /** Wrapper for converting public APIs semantics to internal API
      *
-- 
2.43.0


From b469422297252f936cea3219ffb4f5a0b4b7b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 43/68] fix: status, listing and dump commands raced with
 configuration application and domain edits

---
 parameter/ParameterMgr.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 03e02f4..9fa2be5 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -888,6 +888,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::versionCommandProce
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::statusCommandProcess(
     const IRemoteCommand & /*command*/, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // System class
     const CSystemClass *pSystemClass = getSystemClass();
 
@@ -1130,6 +1133,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listCriteriaCommand
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listDomainsCommandProcess(
     const IRemoteCommand & /*command*/, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     getConfigurableDomains()->listDomains(strResult);
 
     return CCommandHandler::ESucceeded;
@@ -1206,6 +1212,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::getSequenceAwarenes
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listDomainElementsCommandProcess(
     const IRemoteCommand &remoteCommand, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     return getConfigurableDomains()->listDomainElements(remoteCommand.getArgument(0), strResult)
                ? CCommandHandler::ESucceeded
                : CCommandHandler::EFailed;
@@ -1241,6 +1250,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::splitDomainCommandP
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listConfigurationsCommandProcess(
     const IRemoteCommand &remoteCommand, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     return getConstConfigurableDomains()->listConfigurations(remoteCommand.getArgument(0),
                                                              strResult)
                ? CCommandHandler::ESucceeded
@@ -1250,6 +1262,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listConfigurationsC
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::dumpDomainsCommandProcess(
     const IRemoteCommand & /*command*/, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // Dummy error context
     string strError;
     utility::ErrorContext errorContext(strError);
@@ -1329,6 +1344,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementSequenceC
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::getElementSequenceCommandProcess(
     const IRemoteCommand &remoteCommand, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     // Delegate to configurable domains
     return getConfigurableDomains()->getElementSequence(remoteCommand.getArgument(0),
                                                         remoteCommand.getArgument(1), strResult)
@@ -1643,6 +1661,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementXMLComman
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::dumpElementCommandProcess(
     const IRemoteCommand &remoteCommand, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     CElementLocator elementLocator(getSystemClass());
 
     CElement *pLocatedElement = nullptr;
@@ -1736,6 +1757,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setParameterCommand
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listBelongingDomainsCommandProcess(
     const IRemoteCommand &remoteCommand, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     CElementLocator elementLocator(getSystemClass());
 
     CElement *pLocatedElement = nullptr;
@@ -1758,6 +1782,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listBelongingDomain
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listAssociatedDomainsCommandProcess(
     const IRemoteCommand &remoteCommand, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     CElementLocator elementLocator(getSystemClass());
 
     CElement *pLocatedElement = nullptr;
@@ -1780,6 +1807,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listAssociatedDomai
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listAssociatedElementsCommandProcess(
     const IRemoteCommand & /*command*/, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     getConfigurableDomains()->listAssociatedElements(strResult);
 
     return CCommandHandler::ESucceeded;
@@ -1788,6 +1818,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listAssociatedEleme
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listConflictingElementsCommandProcess(
     const IRemoteCommand & /*command*/, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     getConfigurableDomains()->listConflictingElements(strResult);
 
     return CCommandHandler::ESucceeded;
@@ -1796,6 +1829,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listConflictingElem
 CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::listRogueElementsCommandProcess(
     const IRemoteCommand & /*command*/, string &strResult)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     getSystemClass()->listRogueElements(strResult);
 
     return CCommandHandler::ESucceeded;
-- 
2.43.0


From 454d3bab0479a58b80b95550eb221d9e7076d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 44/68] fix: element handles read the domains of their element
 while other threads edited them

---
 parameter/ElementHandle.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index 8b487e5..fb1a5b0 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -83,6 +83,9 @@ string ElementHandle::getDescription() const
 // Parameter features
 bool ElementHandle::isRogue() const
 {
+    // Ensure we're safe against domain edits
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     return mElement.isRogue();
 }
 
@@ -196,15 +199,15 @@ bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::stri
 template <class T>
 bool ElementHandle::setAs(const T value, string &error) const
 {
+    // Ensure we're safe against blackboard foreign access and domain edits
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     if (not checkSetValidity(getUserInputSize(value), error)) {
         return false;
     }
     // Safe downcast thanks to isParameter check in checkSetValidity
     auto &parameter = static_cast<CBaseParameter &>(mElement);
 
-    // Ensure we're safe against blackboard foreign access
-    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
-
     // When in tuning mode, silently skip "set" requests
     if (mParameterMgr.tuningModeOn()) {
 
-- 
2.43.0


From 774add114ca6700350a1e021f80a93ae5ff4ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 45/68] fix: remote requests keep arguments containing NUL
 characters whole

---
 remote-processor/Message.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index 978fba5..4fbace6 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -112,7 +112,7 @@ bool CMessage::readString(string &strData)
     }
 
     // Data
-    std::vector<char> string(size_t(uiSize) + 1);
+    std::vector<char> string(uiSize);
 
     // Content
     if (!readData(string.data(), uiSize)) {
@@ -120,11 +120,8 @@ bool CMessage::readString(string &strData)
         return false;
     }
 
-    // NULL-terminate string
-    string.back() = '\0';
-
     // Output
-    strData = string.data();
+    strData.assign(begin(string), end(string));
 
     return true;
 }
-- 
2.43.0


From 3ddf377bc1e7c74722055d2fe1788e1c3ba9a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 46/68] fix: stop the remote server without waiting for its
 client to leave

---
 remote-processor/RemoteProcessorServer.cpp | 27 +++++++++++++++++++++-
 remote-processor/RemoteProcessorServer.h   |  6 +++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/remote-processor/RemoteProcessorServer.cpp b/remote-processor/RemoteProcessorServer.cpp
index d3fefdd..70bb5ed 100644
--- a/remote-processor/RemoteProcessorServer.cpp
+++ b/remote-processor/RemoteProcessorServer.cpp
@@ -75,6 +75,17 @@ bool CRemoteProcessorServer::start(string &error)
 
 bool CRemoteProcessorServer::stop()
 {
+    {
+        std::lock_guard<std::mutex> lock(_connectionMutex);
+
+        _stopping = true;
+
+        if (_connected) {
+            // Do not wait for the client to leave
+            asio::error_code ec;
+            _socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        }
+    }
     _io_service.stop();
 
     return true;
@@ -88,10 +99,24 @@ void CRemoteProcessorServer::acceptRegister(IRemoteCommandHandler &commandHandle
             return;
         }
 
+        {
+            std::lock_guard<std::mutex> lock(_connectionMutex);
+
+            if (_stopping) {
+                return;
+            }
+            _connected = true;
+        }
+
         _socket.set_option(asio::ip::tcp::no_delay(true));
         handleNewConnection(commandHandler);
 
-        _socket.close();
+        {
+            std::lock_guard<std::mutex> lock(_connectionMutex);
+
+            _connected = false;
+            _socket.close();
+        }
 
         acceptRegister(commandHandler);
     };
diff --git a/remote-processor/RemoteProcessorServer.h b/remote-processor/RemoteProcessorServer.h
index 2da0113..b648d1b 100644
--- a/remote-processor/RemoteProcessorServer.h
+++ b/remote-processor/RemoteProcessorServer.h
@@ -34,6 +34,7 @@
 #include <stdint.h>
 #include "RemoteProcessorServerInterface.h"
 #include <asio.hpp>
+#include <mutex>
 
 class IRemoteCommandHandler;
 
@@ -60,4 +61,9 @@ private:
     asio::io_service _io_service;
     asio::ip::tcp::acceptor _acceptor;
     asio::ip::tcp::socket _socket;
+
+    /** Protects the connection against a stop from another thread. */
+    std::mutex _connectionMutex;
+    bool _connected{false};
+    bool _stopping{false};
 };
-- 
2.43.0


From 9990934530952172392f7fc5ce881634986a9117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 47/68] fix: deliver the answers still being sent when a remote
 client is done sending

---
 remote-processor/RemoteProcessorServer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/remote-processor/RemoteProcessorServer.cpp b/remote-processor/RemoteProcessorServer.cpp
index 70bb5ed..1d8efdc 100644
--- a/remote-processor/RemoteProcessorServer.cpp
+++ b/remote-processor/RemoteProcessorServer.cpp
@@ -60,7 +60,6 @@ bool CRemoteProcessorServer::start(string &error)
         _acceptor.open(endpoint.protocol());
 
         _acceptor.set_option(ip::tcp::acceptor::reuse_address(true));
-        _acceptor.set_option(asio::socket_base::linger(true, 0));
         _acceptor.set_option(socket_base::enable_connection_aborted(true));
 
         _acceptor.bind(endpoint);
-- 
2.43.0


From 2d0efa428419b8ce9245ce1c4f29ed6c33908af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 48/68] fix: a second start rebuilt the running instance over
 itself

---
 parameter/ParameterMgrPlatformConnector.cpp       | 10 +++++++++-
 parameter/include/ParameterMgrPlatformConnector.h |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgrPlatformConnector.cpp b/parameter/ParameterMgrPlatformConnector.cpp
index c69d76e..d314105 100644
--- a/parameter/ParameterMgrPlatformConnector.cpp
+++ b/parameter/ParameterMgrPlatformConnector.cpp
@@ -39,7 +39,7 @@ CParameterMgrPlatformConnector::CParameterMgrPlatformConnector(
     const string &strConfigurationFilePath)
     : _pParameterMgrLogger(new CParameterMgrLogger<CParameterMgrPlatformConnector>(*this)),
       _pParameterMgr(new CParameterMgr(strConfigurationFilePath, *_pParameterMgrLogger)),
-      _bStarted(false), _pLogger(nullptr)
+      _bStarted(false), _bStartAttempted(false), _pLogger(nullptr)
 {
 }
 
@@ -179,6 +179,14 @@ bool CParameterMgrPlatformConnector::getValidateSchemasOnStart() const
 // Start
 bool CParameterMgrPlatformConnector::start(string &strError)
 {
+    // What a first start built, even in part, is not to be built again
+    if (_bStartAttempted) {
+
+        strError = "The parameter-framework can not be started twice";
+        return false;
+    }
+    _bStartAttempted = true;
+
     // Create data structure
     if (!_pParameterMgr->load(strError)) {
 
diff --git a/parameter/include/ParameterMgrPlatformConnector.h b/parameter/include/ParameterMgrPlatformConnector.h
index 3df9794..c963386 100644
--- a/parameter/include/ParameterMgrPlatformConnector.h
+++ b/parameter/include/ParameterMgrPlatformConnector.h
@@ -201,6 +201,9 @@ protected:
     CParameterMgr *_pParameterMgr;
     // State
     bool _bStarted;
+
+    // Start attempted, successfully or not
+    bool _bStartAttempted;
     // Logging
     ILogger *_pLogger;
 };
-- 
2.43.0


From fea4c7d8b0dbc1fd583f208cbbfad8beb055d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 49/68] fix: an enumeration without size was refused without an
 error

---
 parameter/EnumParameterType.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index df3cbfb..9b08ce6 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -86,6 +86,8 @@ bool CEnumParameterType::fromXml(const CXmlElement &xmlElement,
     // Size in bits
     size_t sizeInBits = 0;
     if (not xmlElement.getAttribute("Size", sizeInBits)) {
+
+        serializingContext.setError("Missing size for " + getKind() + " " + xmlElement.getPath());
         return false;
     }
 
-- 
2.43.0


From c808b49303dd15bcd0882eef44828cb843a378a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 50/68] fix: builders of a subsystem type registered twice
 leaked

---
 parameter/ElementLibrary.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parameter/ElementLibrary.cpp b/parameter/ElementLibrary.cpp
index aaeaa08..ce2b87e 100644
--- a/parameter/ElementLibrary.cpp
+++ b/parameter/ElementLibrary.cpp
@@ -60,7 +60,14 @@ CElement *CElementLibrary::createElement(const CXmlElement &xmlElement) const
 void CElementLibrary::addElementBuilder(const std::string &type,
                                         const CElementBuilder *pElementBuilder)
 {
-    _elementBuilderMap[type] = pElementBuilder;
+    const CElementBuilder *&builder = _elementBuilderMap[type];
+
+    // Registered again: the last one prevails
+    if (builder != pElementBuilder) {
+
+        delete builder;
+    }
+    builder = pElementBuilder;
 }
 
 std::string CElementLibrary::getBuilderType(const CXmlElement &xmlElement) const
-- 
2.43.0


From 9d049f7ddb5cbb77b9f2d45f40b9f4a98d8de09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 51/68] fix: the domain generator could not follow an absolute
 structure path

The directory of the top level configuration was put in front of absolute
paths as well.
---
 tools/xmlGenerator/hostConfig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/hostConfig.py b/tools/xmlGenerator/hostConfig.py
index 871f8f2..aa90db9 100755
--- a/tools/xmlGenerator/hostConfig.py
+++ b/tools/xmlGenerator/hostConfig.py
@@ -29,6 +29,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import os
 import xml.dom.minidom
 import sys
 
@@ -53,7 +54,7 @@ def configure(infile=sys.stdin, outfile=sys.stdout, serverPort=None, structPath=
 
     if structPath is not None:
         for node in dom.getElementsByTagName("StructureDescriptionFileLocation"):
-            node.setAttribute("Path", structPath + "/" + node.getAttribute("Path"))
+            node.setAttribute("Path", os.path.join(structPath, node.getAttribute("Path")))
 
     outfile.write(dom.toxml())
 
-- 
2.43.0


From 864f18ed7bea837977d86d9fbf6a99d52861435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 52/68] fix: the domain generator failed without --schemas-dir

The option is optional, but its absence was passed on as None to the
connector, which expects an empty string in this case.
---
 tools/xmlGenerator/domainGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/domainGenerator.py b/tools/xmlGenerator/domainGenerator.py
index 12a26f1..71e2527 100755
--- a/tools/xmlGenerator/domainGenerator.py
+++ b/tools/xmlGenerator/domainGenerator.py
@@ -77,7 +77,7 @@ def parseArgs():
     argparser.add_argument('--schemas-dir',
             help="Directory of parameter-framework XML Schemas for generation \
         validation",
-            default=None)
+            default="")
     argparser.add_argument('--target-schemas-dir',
             help="Ignored. Kept for retro-compatibility")
     argparser.add_argument('--validate',
-- 
2.43.0


From 5dd011d3fc95ca8747716dd124c5edc8666cc6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 53/68] fix: too many values of an inclusive criterion
 overflowed in the connector

The values of an inclusive criterion are the bits of an int: shifting
further is undefined, and made values indistinguishable.
---
 tools/xmlGenerator/domainGeneratorConnector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/xmlGenerator/domainGeneratorConnector.cpp b/tools/xmlGenerator/domainGeneratorConnector.cpp
index a83822f..64a9b31 100644
--- a/tools/xmlGenerator/domainGeneratorConnector.cpp
+++ b/tools/xmlGenerator/domainGeneratorConnector.cpp
@@ -135,6 +135,9 @@ void XmlGenerator::addCriteria(std::vector<string> &tokens)
 
     int index = 0;
     for (const auto &literalValue : tokens) {
+        if (inclusiveness && index >= std::numeric_limits<int>::digits) {
+            throw Exception("Too many values for inclusive criterion " + name);
+        }
         // inclusive criteria are bitfields
         int numericalValue = inclusiveness ? 1 << index : index;
         string error;
-- 
2.43.0


From 7f8aec5e4438602ad249a4db13428febcac9fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 54/68] fix: criteria whose name starts with ANY or ALL broke
 EDD files

A rule on such a criterion was taken for an operator, which failed at the
translation.
---
 tools/xmlGenerator/EddParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/EddParser.py b/tools/xmlGenerator/EddParser.py
index 7f8a5b9..dc22b5d 100755
--- a/tools/xmlGenerator/EddParser.py
+++ b/tools/xmlGenerator/EddParser.py
@@ -402,7 +402,7 @@ class Operator (Rule) :
 
     tag = "operator"
     optionNames = ["Name"]
-    match = re.compile(r"ANY|ALL").match
+    match = re.compile(r"(ANY|ALL)\s*$").match
     childWhiteList = ["Rule", "Operator"]
 
     syntax = { "ANY" : "Any" , "ALL" : "All"}
-- 
2.43.0


From c6a38713be5edfaef6e1c288b7e3792aefef729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 55/68] fix: sequence aware domains of EDD files did not follow
 the order written

The parameters of components were moved after the other parameters of
their parent, so that the element sequence of a configuration was not the
one described.
---
 tools/xmlGenerator/EddParser.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tools/xmlGenerator/EddParser.py b/tools/xmlGenerator/EddParser.py
index dc22b5d..d4efbba 100755
--- a/tools/xmlGenerator/EddParser.py
+++ b/tools/xmlGenerator/EddParser.py
@@ -354,13 +354,11 @@ class GroupPath (Path, ElementWithTag) :
 
         pathNames = []
 
-        paths = self.extractChildrenByClass([Path])
-        for path in paths :
-            pathNames.append(path.getName())
-
-        groupPaths = self.extractChildrenByClass([GroupPath])
-        for groupPath in groupPaths :
-            pathNames += groupPath.getPathNames()
+        for path in self.extractChildrenByClass([Path, GroupPath]) :
+            if path.__class__ == GroupPath :
+                pathNames += path.getPathNames()
+            else :
+                pathNames.append(path.getName())
 
         return pathNames
 
-- 
2.43.0


From bedf077ba22954188c8fffd7ac29da13b1bee1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 56/68] fix: PFWScriptGenerator.py could not write its script

The commands of a script became lists of arguments, which were still
joined as strings: the script failed on any EDD file. The commands are
now written with their arguments quoted for the shell which runs them.
---
 tools/xmlGenerator/PFWScriptGenerator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/PFWScriptGenerator.py b/tools/xmlGenerator/PFWScriptGenerator.py
index 145295d..12587a1 100755
--- a/tools/xmlGenerator/PFWScriptGenerator.py
+++ b/tools/xmlGenerator/PFWScriptGenerator.py
@@ -32,6 +32,7 @@ import EddParser
 from PfwBaseTranslator import PfwBaseTranslator
 
 import argparse
+import pipes
 import sys
 
 class PfwScriptTranslator(PfwBaseTranslator):
@@ -141,7 +142,9 @@ def main ():
         if options.output_kind == 'pfw':
             translator = PfwScriptTranslator()
             myroot.translate(translator)
-            options.output.write("\n".join(translator.getScript()))
+            # One command per line, its arguments quoted for the shell
+            for command in translator.getScript():
+                options.output.write(" ".join(map(pipes.quote, command)) + "\n")
 
 # execute main function if the python interpreter is running this module as the main program
 if __name__ == "__main__" :
-- 
2.43.0


From 1d3375868a9645d6aab0fa00040834e282d17d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 57/68] fix: a value without literal read as whatever the
 string held before

---
 parameter/EnumParameterType.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 9b08ce6..bad14ed 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -178,7 +178,11 @@ bool CEnumParameterType::fromBlackboard(string &userValue, const uint32_t &value
         }
     } else {
         // Literal display requested (should succeed)
-        getLiteral(signedValue, userValue);
+        if (!getLiteral(signedValue, userValue)) {
+
+            // No literal: do not leave what the string held before
+            userValue.clear();
+        }
     }
     return true;
 }
-- 
2.43.0


From 6a9618969b39116554a513f4ed6bd2d58371dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 58/68] fix: methods with output parameters could not be called
 from Python

---
 bindings/python/pfw.i | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/bindings/python/pfw.i b/bindings/python/pfw.i
index a1bfe62..c2e6357 100644
--- a/bindings/python/pfw.i
+++ b/bindings/python/pfw.i
@@ -57,6 +57,31 @@ namespace std {
 // TODO: make it return a tuple instead of a list
 %apply std::string &OUTPUT { std::string& strError };
 
+// Outputs which are left untouched by failing calls
+%typemap(in, numinputs=0) bool& bSequenceAware (bool value = false)
+    "$1 = &value;"
+%typemap(argout) bool& bSequenceAware {
+    %append_output(SWIG_From_bool(*$1));
+}
+%typemap(in, numinputs=0) int& iValue (int value = 0)
+    "$1 = &value;"
+%typemap(argout) int& iValue {
+    %append_output(SWIG_From_int(*$1));
+}
+
+// The errors of a restoration are returned as a list of strings
+%typemap(in, numinputs=0) std::list<std::string>& strError (std::list<std::string> errors)
+    "$1 = &errors;"
+%typemap(argout) std::list<std::string>& strError {
+    PyObject *list = PyList_New(0);
+    for (const std::string &error : *$1) {
+        PyObject *item = SWIG_From_std_string(error);
+        PyList_Append(list, item);
+        Py_XDECREF(item);
+    }
+    %append_output(list);
+}
+
 // Automatic python docstring generation
 // FIXME: because of the typemap above, the output type is wrong for methods
 // that can return an error string.
@@ -126,7 +151,9 @@ public:
     bool accessConfigurationValue(const std::string &strDomain, const std::string &strConfiguration, const std::string& strPath, std::string& strValue, bool bSet, std::string& strError);
 %clear std::string& strValue;
 
+%apply std::string &OUTPUT { std::string& strValue };
     bool getParameterMapping(const std::string& strPath, std::string& strValue) const;
+%clear std::string& strValue;
 
     // Creation/Deletion
     bool createDomain(const std::string& strName, std::string& strError);
@@ -208,7 +235,9 @@ class ISelectionCriterionTypeInterface
 public:
     virtual bool addValuePair(int iValue, const std::string& strValue, std::string& strError) = 0;
     virtual bool getNumericalValue(const std::string& strValue, int& iValue) const = 0;
+%apply std::string &OUTPUT { std::string& strValue };
     virtual bool getLiteralValue(int iValue, std::string& strValue) const = 0;
+%clear std::string& strValue;
     virtual bool isTypeInclusive() const = 0;
     virtual std::string getFormattedState(int iValue) const = 0;
 
-- 
2.43.0


From f2d93b7ea0385d88f16547bed782afabed2888a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 59/68] fix: the coverage report missed every configuration
 application

The framework quotes the names with apostrophes in its log, the report
looked for double quotes.
---
 tools/coverage/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/coverage/coverage.py b/tools/coverage/coverage.py
index 0a23285..d2d29c1 100755
--- a/tools/coverage/coverage.py
+++ b/tools/coverage/coverage.py
@@ -734,7 +734,7 @@ class ParsePFWlog():
         self.criteria = criteria;
         self.ErrorsToIgnore = ErrorsToIgnore
 
-        configApplicationRegext = r""".*Applying configuration "(.*)" from domain "([^"]*)"""
+        configApplicationRegext = r""".*Applying configuration '(.*)' from domain '(.*)'"""
         matchConfigApplicationLine = re.compile(configApplicationRegext).match
 
         criterionCreationRegext = ", ".join([
-- 
2.43.0


From e1882e025dfcacafdd64ece8edd36f210b2c24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 60/68] fix: the coverage report misjudged rules on composed or
 empty states

A rule value of an inclusive criterion may name several states, or none.
---
 tools/coverage/coverage.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/tools/coverage/coverage.py b/tools/coverage/coverage.py
index d2d29c1..ab63ad3 100755
--- a/tools/coverage/coverage.py
+++ b/tools/coverage/coverage.py
@@ -397,7 +397,7 @@ class CriterionRule(FromDomElement, DomPopulatedElement, Rule):
     childClasses = []
     isApplicableOperations = {
                 "Includes" : lambda criterion, value:     criterion.stateIncludes(value),
-                "Excludes" : lambda criterion, value: not criterion.stateIncludes(value),
+                "Excludes" : lambda criterion, value:     criterion.stateExcludes(value),
                 "Is"       : lambda criterion, value:     criterion.stateIs(value),
                 "IsNot"    : lambda criterion, value: not criterion.stateIs(value)
             }
@@ -665,22 +665,32 @@ class Criterion(Element):
         return Criterion(self.name, self.isInclusif, subStateNames, subStateNames,
             ignoreIntegrity=True)
 
-    def stateIncludes(self, subStateName):
-        subStateCurrentNames = list(self._getElementNames(self.currentState))
+    def _subStateNames(self, value):
+        """Return the set of state names designated by a rule value"""
+        if not self.isInclusif :
+            return {value}
 
-        self.debug("Testing if %s is included in %s" % (subStateName, subStateCurrentNames))
+        # An inclusive criterion value can be composed, or empty
+        return set(value.split("|")) - {"", "none", "<none>"}
 
-        isIncluded = subStateName in subStateCurrentNames
+    def _currentStateNames(self):
+        return set(self._getElementNames(self.currentState))
+
+    def stateIncludes(self, value):
+        subStateCurrentNames = self._currentStateNames()
+
+        self.debug("Testing if %s is included in %s" % (value, subStateCurrentNames))
+
+        isIncluded = self._subStateNames(value) <= subStateCurrentNames
         self.debug("IsIncluded: %s" % isIncluded)
 
         return isIncluded
 
+    def stateExcludes(self, value):
+        return not self._subStateNames(value) & self._currentStateNames()
 
-    def stateIs(self, subStateNames):
-        if len(self.currentState) != 1 :
-            return False
-        else :
-            return self.stateIncludes(subStateNames)
+    def stateIs(self, value):
+        return self._subStateNames(value) == self._currentStateNames()
 
     def _getXMLAttributes(self):
         attributes = super()._getXMLAttributes()
-- 
2.43.0


From aca1155d63fa79126be1801e75516733d9eb26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 61/68] fix: aplog2coverage.sh did not know its documented long
 options

--regexp made it loop for ever, --output was refused.
---
 tools/coverage/aplog2coverage.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/coverage/aplog2coverage.sh b/tools/coverage/aplog2coverage.sh
index 5e0e59c..28ff8af 100755
--- a/tools/coverage/aplog2coverage.sh
+++ b/tools/coverage/aplog2coverage.sh
@@ -41,7 +41,7 @@ help () {
     echo "Supported options:
   -h, --help            Display this help
   -d, --domains         The domain xml file
-  -o, --ouput           Output the report to a file instead of stdout
+  -o, --output          Output the report to a file instead of stdout
   -e, --regexp          A regex to filter (egrep) logs in order to keep only the PFW log lines
   -f, --force           Force log parser to continue on ignorable errors
   -p, --parser_option   Options to apply to the log parser"
@@ -61,7 +61,7 @@ coverage_report_generator_options=""
 
 # Parse command line arguments
 ARGS="$(getopt --options "hd:o:e:p:f" \
-               --longoptions "help,domains:,ouput:,regexp:,parser_option:,force" \
+               --longoptions "help,domains:,output:,regexp:,parser_option:,force" \
                --name "$0" -- "$@" )"
 
 eval set -- "$ARGS"
@@ -85,7 +85,7 @@ do
             outputFile="$1"
             shift
             ;;
-        -e|--regex)
+        -e|--regexp)
             shift
             filterRegex="$1"
             shift
-- 
2.43.0


From 26de7f698f24e68862885f9f721c1ef647d465d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 62/68] fix: the client simulator killed the coverage
 generation it had launched

The event which ends the running processes stayed set.
---
 .../clientsimulator/testGenerator/SubprocessLogger.py  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/clientSimulator/clientsimulator/testGenerator/SubprocessLogger.py b/tools/clientSimulator/clientsimulator/testGenerator/SubprocessLogger.py
index bd73dae..64acefc 100644
--- a/tools/clientSimulator/clientsimulator/testGenerator/SubprocessLogger.py
+++ b/tools/clientSimulator/clientsimulator/testGenerator/SubprocessLogger.py
@@ -112,9 +112,17 @@ class SubprocessLoggerThread(threading.Thread):
 
     @classmethod
     def closeAll(cls):
-        """ Set the closeEvent to ask the thread to die  """
+        """ Set the closeEvent to ask the threads to die and wait for them """
         cls.__closeEvent.set()
 
+        for threadClass in (SubprocessLoggerThread, StreamLoggerThread):
+            for thread in threading.enumerate():
+                if isinstance(thread, threadClass):
+                    thread.join()
+
+        # Processes may be launched again
+        cls.__closeEvent.clear()
+
     def __cleanup(self):
         """
             Close properly the child with SIGINT.
-- 
2.43.0


From d492c11122468124a5ce710db9293c5bc34ef45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 63/68] fix: a choice beyond the end of a menu ended the client
 simulator

---
 .../clientsimulator/userInteraction/UserInteractor.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py b/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
index d695705..de2c9fb 100644
--- a/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
+++ b/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
@@ -78,8 +78,8 @@ class UserInteractor:
                 if choice == len(options):
                     # The user has selected the "cancel" option
                     break
-                if choice < 0:
-                    # Negative values make no sense
+                if not 0 <= choice < len(options):
+                    # Values out of the menu make no sense
                     raise KeyError(choice)
 
                 options[choice][1]()
-- 
2.43.0


From a8900bd53f17c35c82a6253b210654bbff9e5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 64/68] fix: removing the last value of an inclusive criterion
 ended the client simulator

---
 .../clientsimulator/criterion/InclusiveCriterion.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/clientSimulator/clientsimulator/criterion/InclusiveCriterion.py b/tools/clientSimulator/clientsimulator/criterion/InclusiveCriterion.py
index 09ec308..a623591 100644
--- a/tools/clientSimulator/clientsimulator/criterion/InclusiveCriterion.py
+++ b/tools/clientSimulator/clientsimulator/criterion/InclusiveCriterion.py
@@ -89,7 +89,7 @@ class InclusiveCriterion(Criterion):
                 "Value {} is not currently setted.".format(currentValue))
         # If there is no value, assume it's default
         if not self.__currentValues:
-            self.__currentValues.append(self.noValue)
+            self.__currentValues.add(self.noValue)
 
     def __str__(self):
         return self.__class__.__name__ + ' : ' + str(self.__currentValues)
-- 
2.43.0


From a943354353e21bcf83a760d4003278c70e1aa116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 65/68] fix: values contained in the name of the current one
 could not be chosen

---
 .../clientsimulator/userInteraction/UserInteractor.py      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py b/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
index de2c9fb..9dc96d3 100644
--- a/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
+++ b/tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py
@@ -139,9 +139,14 @@ class UserInteractor:
             :type criterion: Criterion
         """
 
+        # An exclusive criterion has a single value, not a collection
+        currentValues = criterion.currentValue
+        if isinstance(currentValues, str):
+            currentValues = [currentValues]
+
         optionEditCriterion = []
         for possibleValue in [x for x in criterion.allowedValues()
-                              if not x in criterion.currentValue
+                              if not x in currentValues
                               and not x == criterion.noValue]:
             optionEditCriterion.append(
                 ("Set {}".format(possibleValue),
-- 
2.43.0


From 938bd6614883f77122edead4158d9f15b3b1eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 66/68] fix: a scenario step naming no criterion reset all of
 them

---
 .../clientsimulator/testGenerator/TestVectorFactory.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/clientSimulator/clientsimulator/testGenerator/TestVectorFactory.py b/tools/clientSimulator/clientsimulator/testGenerator/TestVectorFactory.py
index 94bbf75..e311b07 100644
--- a/tools/clientSimulator/clientsimulator/testGenerator/TestVectorFactory.py
+++ b/tools/clientSimulator/clientsimulator/testGenerator/TestVectorFactory.py
@@ -62,7 +62,7 @@ class TestVectorFactory:
             # Instanciate the criterion class requested
             newCriterion = criterionClass()
 
-            if rawCriterions:
+            if rawCriterions is not None:
                 try:
                     newCriterion.currentValue = rawCriterions[
                         criterionClass.__name__]
@@ -72,7 +72,7 @@ class TestVectorFactory:
                         "Missing Criterion {}, old value keeped".format(
                             criterionClass.__name__))
             else:
-                # if rawCriterions is None, we create an empty criterions lists
+                # if rawCriterions is None, all criterions take their default value
                 newCriterion.currentValue = newCriterion.noValue
                 criterions.append(newCriterion)
         return criterions
-- 
2.43.0


From 7033107be70b7a1c7b27c51002a0685d8215218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 67/68] fix: the client simulator never ended after an error in
 a scenario

It waited for the test-platform it had launched.
---
 tools/clientSimulator/pfClientSimulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/clientSimulator/pfClientSimulator.py b/tools/clientSimulator/pfClientSimulator.py
index f58c838..24c1553 100755
--- a/tools/clientSimulator/pfClientSimulator.py
+++ b/tools/clientSimulator/pfClientSimulator.py
@@ -209,6 +209,10 @@ def main():
                 UserInteractor.getMenu(scenarioOptions, "Quit")
     except KeyboardInterrupt as e:
         close(logger, testLauncher, args.coverage)
+    except Exception:
+        # Do not leave the test-platform running
+        SubprocessLoggerThread.closeAll()
+        raise
     else:
         close(logger, testLauncher, args.coverage)
 
-- 
2.43.0


From 367ab550757ed8993ba03d5351f4d4a8a5cabbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:34 +0000
Subject: [PATCH 68/68] fix: leak of the document when an export cannot be
 written

---
 xmlserializer/XmlStreamDocSink.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmlserializer/XmlStreamDocSink.cpp b/xmlserializer/XmlStreamDocSink.cpp
index 0cb281e..bcb5dba 100644
--- a/xmlserializer/XmlStreamDocSink.cpp
+++ b/xmlserializer/XmlStreamDocSink.cpp
@@ -29,6 +29,7 @@
  */
 #include "XmlStreamDocSink.h"
 #include <libxml/parser.h>
+#include <memory>
 
 #define base CXmlDocSink
 
@@ -51,9 +52,10 @@ bool CXmlStreamDocSink::doProcess(CXmlDocSource &xmlDocSource,
         return false;
     }
 
-    _output << static_cast<unsigned char *>(dumpedDoc);
+    // Release the dumped document even if the output stream throws on failure
+    std::unique_ptr<xmlChar, decltype(xmlFree)> guard(dumpedDoc, xmlFree);
 
-    xmlFree(dumpedDoc);
+    _output << static_cast<unsigned char *>(dumpedDoc);
 
     return true;
 }
-- 
2.43.0

