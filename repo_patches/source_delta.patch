From 47ad2b47632f7cbaedbc342ee48a18ce35f7714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 01/24] fix: Base64::Encode breaks every line at 72 characters
 and sizes its output for it

---
 TestingFramework/tfBase64.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index a608417..f7df10f 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -83,8 +83,8 @@ namespace testutil {
 
   std::string Base64::Encode(const void *_input, size_t numBytes) {
     std::string::size_type numChars = ((numBytes+2)/3)*4;
-    if (this->addNewLines)	  
-      numChars += numChars/72;
+    if (this->addNewLines && numChars)
+      numChars += (numChars-1)/72;
     std::string output(numChars, '\0');
     const unsigned char *input = static_cast<const unsigned char *>(_input);
 	
@@ -106,7 +106,7 @@ namespace testutil {
       output[i++] = base64chars[(input[j+2] & 0x3f)];
       j += 3;
 	  
-      if (this->addNewLines && !(i%72))
+      if (this->addNewLines && numBytes > 3 && i%73 == 72)
 	output[i++] = '\n';
 	  
       numBytes -= 3;
-- 
2.43.0


From 33106de528537716eae58184b1cc5fbaa9616a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 02/24] fix: Base64 decoding of padded and non-ASCII input, and
 IsBase64 counts bytes

A padded string always threw, a misplaced pad did not, a char above 127
indexed before the table, and the size reported (and allocated from) was
the number of base64 characters.
---
 TestingFramework/tfBase64.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index f7df10f..7d70705 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -132,7 +132,7 @@ namespace testutil {
     size_t i = 0;     // index into encode input
     int byteNumber = 0;  // 0,1,3 indicates how to decode
     size_t bytesRead = 0;
-    char byte;    
+    unsigned char byte;    
     bool padded = false;
 
     while (i < input.length()) {	  
@@ -141,6 +141,9 @@ namespace testutil {
       if (base64bits[ptrdiff_t(byte)] <= 64) {
 	    
 	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	  // padding may only replace the last two chars
+	  if (byteNumber < 2)
+	    return 0;
 	  padded = true;	      
 	  byteNumber++;
 	} else if (padded) {
@@ -155,6 +158,7 @@ namespace testutil {
 
 	if (byteNumber == 4){
 	  byteNumber = 0;
+	  bytesRead--;
 	  if (padded) 
 	    break;
 	}
@@ -184,7 +188,7 @@ namespace testutil {
     int byteNumber = 0; // 0,1,3 indicates how to decode
     size_t bytesRead = 0;
     char buffer[4];
-    char byte;
+    unsigned char byte;
     bool padded = false;
 	
 
@@ -199,20 +203,21 @@ namespace testutil {
 	    padded = true;	 
 	    if (byteNumber == 2) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
-	      output[j++] = buffer[1] << 4;
 	    } else if (byteNumber == 3) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
 	      output[j++] = buffer[1] << 4 | buffer[2] >> 2;
-	      output[j++] = buffer[2] << 6;
 	    } else {
-	      std::runtime_error("invalid base64 string, improper termination");
+	      throw std::runtime_error("invalid base64 string, improper termination");
 	    }
 	  }
 	  byteNumber++;
 	      
 	  // padding finishedm we are done
-	  if (byteNumber == 4)
+	  if (byteNumber == 4) {
+	    byteNumber = 0;
+	    bytesRead--;
 	    break;
+	  }
 
 	} else if (padded) {
 	  // the input was improperly terminated
-- 
2.43.0


From 6d50f5b4c2ce70093633bbcacb2448d83acc0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 03/24] fix: SearchPathList returns "" when no path of the list
 has the file

---
 FileUtilities/PathName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 457db61..690936a 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -294,7 +294,7 @@ namespace fileutil {
       if (fullFileName.IsFile())
 	return fullFileName;
     }
-    return fullFileName;
+    return PathName("");
   }
 
 
-- 
2.43.0


From 5aae3c712331a0cf38dc90f9ae55898763eafd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 04/24] fix: escape attribute values and quotes when a
 measurement is printed

---
 TestingFramework/tfMeasurement.cpp | 22 ++++++++++++++--------
 TestingFramework/tfMeasurement.h   |  7 ++++++-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 0211c77..e37f95e 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -120,7 +120,7 @@ namespace testutil {
   std::string Measurement::ApplyEscapeSequences(const std::string &str) const {
       
     std::string::size_type j = 0;
-    std::string::size_type i = str.find_first_of("&<>");
+    std::string::size_type i = str.find_first_of("&<>\"");
     if (i == str.length())
       return str;
     std::string result;
@@ -132,9 +132,11 @@ namespace testutil {
 	result.append("&lt;");
       else if (str[i] == '>')
 	result.append("&gt;"); 
+      else if (str[i] == '"')
+	result.append("&quot;");
 	
       j = i + 1;
-      i = str.find_first_of("&<>", j);
+      i = str.find_first_of("&<>\"", j);
     }      
     result.append(str,j,i-j);
     return result;
@@ -158,6 +160,10 @@ namespace testutil {
   }
   
 
+  std::string Measurement::GetPrintable(const std::string &str) const {
+    return this->GetApplyEscapeSequences() ? this->ApplyEscapeSequences(str) : str;
+  }
+
   void Measurement::PrintContent(std::ostream &os) const {
     if (this->GetApplyEscapeSequences()) {
       os << this->ApplyEscapeSequences(this->GetContent());
@@ -317,8 +323,8 @@ namespace testutil {
 
   void MeasurementFile::PrintStartTag(std::ostream &os) const {
       
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\">";
+    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetPrintable(this->GetAttributeName())
+       << "\" type=\"" << this->GetPrintable(this->GetAttributeType()) << "\">";
   }
   
   
@@ -485,13 +491,13 @@ namespace testutil {
 
      
   void DataMeasurement::PrintStartTag(std::ostream &os) const {
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\"";
+    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetPrintable(this->GetAttributeName())
+       << "\" type=\"" << this->GetPrintable(this->GetAttributeType()) << "\"";
 
     if (this->GetAttributeEncoding() != this->GetDefaultAttributeEncoding())
-      os << " encoding=\"" << this->GetAttributeEncoding() << "\"";
+      os << " encoding=\"" << this->GetPrintable(this->GetAttributeEncoding()) << "\"";
     if (this->GetAttributeCompression() != this->GetDefaultAttributeCompression()) {
-      os << " compression=\"" << this->GetAttributeCompression() << "\"";
+      os << " compression=\"" << this->GetPrintable(this->GetAttributeCompression()) << "\"";
     }
     os << ">";
   }
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 36fb2ec..3e8db82 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -96,7 +96,8 @@ namespace testutil {
     
     /// \brief converts all needed charactors to escape sequences
     ///
-    /// any occurence of &<> is replaces with &amp;,&lt;,&gt; respectfully
+    /// any occurence of &<>" is replaces with &amp;,&lt;,&gt;,&quot;
+    /// respectfully
     virtual std::string ApplyEscapeSequences(const std::string &str) const;
     //virtual std::string ReplaceEscapeSequences(const std::string &str);
     
@@ -138,6 +139,10 @@ namespace testutil {
     /// sequences applied
     virtual void PrintContent(std::ostream &os) const;
 
+    /// \brief the value as it is to be printed, with escape sequences
+    /// applied when they are on
+    std::string GetPrintable(const std::string &str) const;
+
     /// \brief helper function to print the ending XML tag
     /// 
     /// by default this will print </ElementTypeName>
-- 
2.43.0


From 3553b53e926fab08880e86697179684b2abb0d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 05/24] fix: an option without a value ends the argument
 parsing instead of hanging it

---
 TestingFramework/tfRegressionTest.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 5e95254..7ca2f8b 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -221,6 +221,11 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	    std::swap(argv[j+2], argv[j]);
 	  argc -=2;
           }
+        else
+          {
+          // no value follows the option
+          break;
+          }
         }    
       // input filename option
       else if (!strcmp("-I", argv[i])) 
@@ -240,6 +245,11 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	    std::swap(argv[j+2], argv[j]);
 	  argc -=2;
           }
+        else
+          {
+          // no value follows the option
+          break;
+          }
         }
       // expected return value
       else if (!strcmp("-R", argv[i]))
@@ -255,6 +265,11 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	    std::swap(argv[j+2], argv[j]);
 	  argc -=2;
           }
+        else
+          {
+          // no value follows the option
+          break;
+          }
         }
       // additional in file search path
       else if (!strcmp("-P", argv[i]))
@@ -275,6 +290,11 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	  argc -=2;
           this->PrependInFileSearchPath( pn );
           }
+        else
+          {
+          // no value follows the option
+          break;
+          }
         }
       else
         {
-- 
2.43.0


From a9a75dac16d05f7ffe108c588488950b001a1993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 06/24] fix: Main's verdict counts every mismatch and exception
 of this run

It depended on the baseline file still being visible when the test ended
and on earlier calls.
---
 TestingFramework/tfRegressionTest.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 7ca2f8b..fbdcbb6 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -319,7 +319,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
 
     try {
-      this->inputUnmatched++;
+      this->inputUnmatched = 1;
       
       this->ParseAndRemoveArguments(argc, argv);
       
@@ -349,18 +349,14 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       catch(...) {
 	std::cerr << "unknow exception" << std::endl;
       }
-    if ( ret != this->GetExpectedReturn() )
+    if ( ret != this->GetExpectedReturn() && ret != 0 )
       {
       return ret;
       }
-    else if ( this->GetCompareMode() )
-      {
-      return this->inputUnmatched;
-      }
-    else 
-      {
-      return EXIT_SUCCESS;
-      }
+
+    // the number of measurements which did not match, plus one if an
+    // exception was caught
+    return this->inputUnmatched;
 
   }
 
-- 
2.43.0


From 936175f7c708787b01fd2882253a470f4951feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 07/24] fix: CompareMeasurement returns 0 when the measurements
 are the same, as documented

---
 TestingFramework/tfRegressionTest.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index fbdcbb6..92c0885 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -388,7 +388,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
   int RegressionTest::CompareMeasurement(Measurement &test, bool tolerant) {
     // check to see if the top if the Inputs is the same type and name
     Measurement *baseline;
-    int ret = 1;
+    int ret = 1; // zero only if they are the same
     if (!this->Input.empty()) {
       
       baseline = this->Input.front();
@@ -428,13 +428,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
         if ( vis->GetResult() )
           {
           // the results matched
-          ret = 1;
+          ret = 0;
           this->MatchedMeasurement(test);
           }
         else 
           {
           // the results differ
-          ret = 0;
+          ret = 1;
           this->DifferenceMeasurement(test, *baseline);
           }
         
-- 
2.43.0


From 8c5fe2a5ecb662f03dac2524c441acff0b43a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 08/24] fix: tolerant comparison of extreme integers, nan and
 inf

---
 TestingFramework/tfMeasurement.cpp | 12 ++++--------
 TestingFramework/tfMeasurement.h   | 19 ++++++++++++++-----
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index e37f95e..675ed71 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -560,10 +560,8 @@ namespace testutil {
   }
  
   float FloatNumeric::GetValue(void) const {
-    std::istringstream iss(this->GetContent());
-    float v;
-    iss >> v;
-    return v;    
+    // unlike a stream, this also reads "nan" and "inf"
+    return strtof(this->GetContent().c_str(), 0);
   }
 
   void FloatNumeric::SetValue(float v) {
@@ -578,10 +576,8 @@ namespace testutil {
   }
  
   double DoubleNumeric::GetValue(void) const {
-    std::istringstream iss(this->GetContent());
-    double v;
-    iss >> v;
-    return v;    
+    // unlike a stream, this also reads "nan" and "inf"
+    return strtod(this->GetContent().c_str(), 0);
   }
 
   void DoubleNumeric::SetValue(double v) {
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 3e8db82..2e10e0e 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -446,12 +446,21 @@ namespace testutil {
 
     template <class T>
     static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
+      // the same value, which may be infinite, or both are not a number
+      if (lm == rm || (lm != lm && rm != rm))
+	return true;
+      // computed with double so that integers do not overflow
+      const double l = lm;
+      const double r = rm;
+      const double temp = std::abs(l - r);
       tol = std::abs(tol);
-      T temp = std::abs(lm - rm);     
-      return  temp <= tol*std::abs(lm) ||
-	temp <= tol*std::abs(rm) || 
-	(std::abs(lm) < std::numeric_limits<T>::epsilon() &&
-	 std::abs(rm) < std::numeric_limits<T>::epsilon());
+      // an infinite difference is not close to anything
+      if (!(temp <= std::numeric_limits<double>::max()))
+	return false;
+      return  temp <= tol*std::abs(l) ||
+	temp <= tol*std::abs(r) || 
+	(std::abs(l) < std::numeric_limits<T>::epsilon() &&
+	 std::abs(r) < std::numeric_limits<T>::epsilon());
     }
     
   private:
-- 
2.43.0


From 92ce3e92d8e434d574e0b60aa8367aada8db1e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 09/24] fix: a DartMeasurement without a type attribute in the
 input is reported, not dereferenced

---
 TestingFramework/tfRegressionTest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 92c0885..c79bd87 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -661,6 +661,10 @@ namespace {
 	      }
 	    }
 	  }
+	  if (!dm) {
+	    std::cerr << "XML: missing dart measurement type" << std::endl;
+	    dm = new PlainText;
+	  }
 	  pd.m = dm;
 		
 	  // get what we know, but we can't really set any of these yet
-- 
2.43.0


From 51dfd99c12c22af951a5e3c186ff2c8debb06066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 10/24] fix: out of bounds reads in Diff

---
 TestingFramework/tfDiff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 88bb8a7..faec11a 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -218,8 +218,8 @@ namespace testutil {
       assert(xend - xbegin != 0 || yend - ybegin != 0); 
       
       // can't begin or end with a 'snake'
-      assert(xvec[xbegin] != yvec[ybegin] || xend - xbegin == 0 || yend - ybegin == 0);
-      assert(xvec[xend-1] != yvec[yend-1] || xend - xbegin == 0 || yend - ybegin == 0);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xbegin] != yvec[ybegin]);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xend-1] != yvec[yend-1]);
 
       
       if (xend - xbegin == 0) {
@@ -241,7 +241,7 @@ namespace testutil {
 
 	  // eat what 'snake we can in the middle
 	  // and get the operations for the two halves
-	  if (xvec[part.xmid-1] == yvec[part.ymid-1] && part.xmid != xbegin && part.ymid != ybegin) {
+	  if (part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid-1] == yvec[part.ymid-1]) {
 	    l2 = GenerateEditList(part.xmid, xend, part.ymid, yend, data);
 	    // eat it
 	    while(part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid - 1] == yvec[part.ymid-1])
@@ -433,7 +433,7 @@ namespace testutil {
 	  
 	for (size_t j = hindex; j < 2; ++j) {
 	  hash_table::iterator i = hash[j].begin();
-	  while(!hash[j].empty()  && i->first == v.first) {
+	  while(i != hash[j].end() && i->first == v.first) {
 	    if (!str[hindex]->substr(data.lines[hindex][v.second].lindex, data.lines[hindex][v.second].length).compare(
 		str[j]->substr(data.lines[j][i->second].lindex, data.lines[j][i->second].length))) {	      
 	      data.vec[j][i->second] = id;	
-- 
2.43.0


From d06eeabd5c86ccc30ef91c432b9b6232dcd1c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 11/24] fix: GetCurrentDirectory does not use an unset buffer
 when getcwd fails

---
 FileUtilities/FileUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FileUtilities/FileUtilities.cpp b/FileUtilities/FileUtilities.cpp
index 85ce031..f57033d 100644
--- a/FileUtilities/FileUtilities.cpp
+++ b/FileUtilities/FileUtilities.cpp
@@ -98,8 +98,8 @@ namespace fileutil {
 
     if (!stat(".", &s)) {
       char currentName[MAX_PATH];
-      getcwd(currentName, MAX_PATH);
-      result = currentName;
+      if (getcwd(currentName, MAX_PATH))
+	result = currentName;
     }
     return PathName(result);
   }
-- 
2.43.0


From f6cf1f09b6550f60cab870e2b3dbaca42d53d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 12/24] fix: image comparison compares the origin of the test
 image

---
 itktf/itktfCompareVisitor.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index aca3b0d..6aae6f7 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -120,7 +120,7 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
   // todo change to some kind of fuzzy a test.
   ImageType::PointType baselineOrigin = baselineReader->GetOutput()->GetOrigin();
   ImageType::PointType testOrigin = testReader->GetOutput()->GetOrigin();
-  if ( baselineOrigin != baselineOrigin )
+  if ( baselineOrigin != testOrigin )
     {
     return 1;
     }
-- 
2.43.0


From 4da18da73c92e289b62703da2a5af15f8ad31cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 13/24] fix: the pixel tolerance is applied once by the image
 comparison

---
 itktf/itktfCompareVisitor.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index 6aae6f7..6f34d1c 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -136,7 +136,8 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
                                            radiusTolerance );
   
 
-  return (status > numberOfPixelsTolerance) ? 1 : 0;
+  // CompareImage has already taken off the pixels which are tolerated
+  return (status > 0) ? 1 : 0;
 }
 
 }
-- 
2.43.0


From c885cb556dd696f88f44b58f18adc12c31c572cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 14/24] fix: SetContentAsData with encoding "none" also sets
 the content

---
 TestingFramework/tfMeasurement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 675ed71..58eff9e 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -456,7 +456,9 @@ namespace testutil {
     }
 
     if (this->GetAttributeEncoding() == "none") {
-      
+      // the content is the data itself
+      this->SetContent(std::string(static_cast<const char*>(this->data), this->dataSize));
+
     } else if (this->GetAttributeEncoding() == "base64") {
       Base64 encoder;
       
-- 
2.43.0


From 2ae5964a682f422f63dbc34d35b622a18ebea377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 15/24] fix: DataMeasurement releases its data on assignment
 and initializes its size

---
 TestingFramework/tfMeasurement.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 58eff9e..ea829be 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -334,19 +334,18 @@ namespace testutil {
     this->DeleteContentAsData();
   }
 
-  DataMeasurement::DataMeasurement(void) : data(0) {
+  DataMeasurement::DataMeasurement(void) : dataSize(0), data(0) {
     this->encoding = this->GetDefaultAttributeEncoding();
     this->compression = this->GetDefaultAttributeCompression();
   }
 
   DataMeasurement::DataMeasurement(const DataMeasurement &m) 
-    : Measurement(m), encoding(m.encoding), compression(m.compression), data(0){
+    : Measurement(m), encoding(m.encoding), compression(m.compression), dataSize(0), data(0){
   }
     
   DataMeasurement &DataMeasurement::operator=(const DataMeasurement &m) {
     this->Measurement::operator=(m);
-    this->data = 0;
-    this->dataSize = 0;
+    this->DeleteContentAsData();
     this->encoding = m.encoding;
     this->compression = m.compression;
     return *this;
-- 
2.43.0


From af2d65fab1a4f9c33cf3fb3fff842ef6eb6e9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 16/24] fix: malformed input is reported as an exception, not
 by an assertion

---
 TestingFramework/tfRegressionTest.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index c79bd87..2578016 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -626,7 +626,12 @@ namespace {
 
     struct XMLParseData {
       XMLParseData(void) : depth(0), m(0) {}
-      ~XMLParseData(void) { assert(!m);}
+      // frees what was not handed over, when the input is not well formed
+      ~XMLParseData(void) {
+	delete m;
+	for (std::list<Measurement*>::iterator i = measurements.begin(); i != measurements.end(); ++i)
+	  delete *i;
+      }
       int depth;
       std::string data;
       Measurement *m;
-- 
2.43.0


From a1a4458c54f505bd77a04380558427b5cc3ce76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 17/24] fix: integer measurements keep the whole range of long

---
 TestingFramework/tfMeasurement.cpp | 6 +++---
 TestingFramework/tfMeasurement.h   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index ea829be..dfc65da 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -543,14 +543,14 @@ namespace testutil {
     visitor.Visit(*this);
   }
  
-  int IntegerNumeric::GetValue(void) const {
+  long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    int v;
+    long v;
     iss >> v;
     return v;    
   }
 
-  void IntegerNumeric::SetValue(int v) {
+  void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
     oss << v;
     this->SetContent(oss.str());
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 2e10e0e..c99f694 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -487,8 +487,8 @@ namespace testutil {
     // see Measurement
     virtual void AcceptVisitor(MeasurementVisitor &visitor);
     
-    int GetValue(void) const;
-    void SetValue(int v); 
+    long GetValue(void) const;
+    void SetValue(long v); 
 
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
-- 
2.43.0


From 6b94466caa74417d4a355962a949c407e0c014c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 18/24] fix: elements nested in a measurement are reported, not
 asserted on

---
 TestingFramework/tfRegressionTest.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 2578016..0082d23 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -642,8 +642,9 @@ namespace {
     void start(void *data, const char *el, const char **attr) {  
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
       
-      assert(!pd.m);
-      assert(pd.data.length() == 0);
+      // an element may only be open when this one is nested too deep
+      assert(pd.depth > 1 || !pd.m);
+      assert(pd.depth > 1 || pd.data.length() == 0);
 
       if (pd.depth == 0) {
 	if (el && std::string(el) != "output" ) {
-- 
2.43.0


From 932217f70a944c8eb3bc5ee8b2d12659d7172c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 19/24] fix: the value of an empty integer or boolean
 measurement is defined

---
 TestingFramework/tfMeasurement.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index dfc65da..5cf7806 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -545,7 +545,7 @@ namespace testutil {
  
   long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    long v;
+    long v = 0; // an empty content does not set it
     iss >> v;
     return v;    
   }
@@ -594,7 +594,7 @@ namespace testutil {
  
   bool BooleanNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    bool v;
+    bool v = false; // an empty content does not set it
     iss >> v;
     return v;    
   }
-- 
2.43.0


From 57292a9f591875ca47fe96a318f1092e850792d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 20/24] fix: lines with a null character are printed completely
 by Diff

---
 TestingFramework/tfDiff.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index faec11a..09a318f 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -300,9 +300,8 @@ namespace testutil {
 
     void PrintLines(const string &prefix, int source,  size_t lnum, size_t num, const fumoffu &data, std::ostream &os) {
 		for (; num > 0; ++lnum, --num) {
-			// some reason MSDEV needed conversion??
-	os << prefix.c_str() << data.str[source]->substr(data.lines[source][lnum].lindex, 
-						   data.lines[source][lnum].length).c_str()<< endl;
+	os << prefix << data.str[source]->substr(data.lines[source][lnum].lindex, 
+						 data.lines[source][lnum].length) << endl;
 		}
     }
 
-- 
2.43.0


From bd9ee2be6413db92c9ad98a894eb1d21e9544320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 21/24] fix: Main closes the output and input files also after
 an exception

---
 TestingFramework/tfRegressionTest.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 0082d23..e63202b 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -349,6 +349,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       catch(...) {
 	std::cerr << "unknow exception" << std::endl;
       }
+
+    // an exception may have left the files open
+    delete this->os;
+    this->os = 0;
+    delete this->is;
+    this->is = 0;
+
     if ( ret != this->GetExpectedReturn() && ret != 0 )
       {
       return ret;
-- 
2.43.0


From 9f32ecfa34dbfd7572ba7a8d1f372790a5da7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 22/24] fix: appending to a path of separators only joins with
 one separator

---
 FileUtilities/PathName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 690936a..5ba6a07 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -143,7 +143,7 @@ namespace fileutil {
       // remove trailing '/'
       std::string path = this->GetNativePathName();
       std::string::size_type i = path.length() - 1;
-      while (i && path[i] == '/')
+      while (i != std::string::npos && path[i] == '/')
 	--i;
       path.erase(i + 1, path.length() - i - 1);
       this->SetPathName(path + '/' + f.GetNativePathName());      
-- 
2.43.0


From 97f34336d14c1d576b82b2a93110a75057053ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:34 +0000
Subject: [PATCH 23/24] fix: an output file that cannot be written no longer
 hides the one named before it

---
 TestingFramework/tfRegressionTest.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index e63202b..82d640a 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -209,12 +209,14 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
         {
 	if (i < argc-1) 
           {
-	  outfname = argv[i+1];
-          fileutil::PathName pn(outfname);
+          fileutil::PathName pn(argv[i+1]);
 	  if (pn.IsFile() && !pn.IsWritable()) 
             {
-	    std::cerr << "unable to write to file \"" << outfname << "\"!" << std::endl;
-	    outfname = 0;
+	    std::cerr << "unable to write to file \"" << argv[i+1] << "\"!" << std::endl;
+            }
+	  else
+            {
+	    outfname = argv[i+1];
             }
 
 	  for (int j = i; j+2 < argc; ++j)
-- 
2.43.0


From 64d204efc7428cb839e7d56267c3e6b232116f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:59 +0000
Subject: [PATCH 24/24] fix: images can be compared with the ITK in use: the
 difference filter's threads run again

ITK 5 calls ThreadedGenerateData(region, ThreadIdType) and only with dynamic
multithreading off; with an int argument and without that call every comparison
of two images ended in an exception. vcl_sqrt and Zero(v) are gone from ITK 5.
---
 itktf/itktfDifferenceImageFilter.h   |  8 ++++++--
 itktf/itktfDifferenceImageFilter.txx | 11 +++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index f8f550c..a5317cf 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -21,6 +21,7 @@
 #include "itkNumericTraits.h"
 #include "itkArray.h"
 #include "itkVariableLengthVector.h"
+#include "itkVersion.h"
 
 namespace itk
 {
@@ -39,7 +40,7 @@ template<typename T>
 itk::VariableLengthVector<T>
 ZeroValue( const itk::VariableLengthVector<T> &v )
 {
-  return  itk::NumericTraits<itk::VariableLengthVector<T> >::Zero(v); 
+  return  itk::NumericTraits<itk::VariableLengthVector<T> >::ZeroValue(v); 
 }
 
 template<typename TPixelType>
@@ -159,8 +160,11 @@ protected:
    *
    * \sa ImageToImageFilter::ThreadedGenerateData(),
    *     ImageToImageFilter::GenerateData()  */
+#if ITK_VERSION_MAJOR < 4
+  typedef int ThreadIdType;
+#endif
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
-                            int threadId);
+                            ThreadIdType threadId);
 
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 79ecd92..b1f8e03 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -18,6 +18,8 @@
 #define __itktfDifferenceImageFilter_txx
 
 
+#include <cmath>
+
 #include "itkConstNeighborhoodIterator.h"
 #include "itkImageRegionConstIterator.h"
 #include "itkImageRegionIterator.h"
@@ -37,6 +39,11 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 {
   // We require two inputs to execute.
   this->SetNumberOfRequiredInputs(2);
+
+#if ITK_VERSION_MAJOR >= 5
+  // ThreadedGenerateData needs the number of the thread
+  this->DynamicMultiThreadingOff();
+#endif
   
   // Set the default MagnitudeThreshold.
   m_MagnitudeThreshold = NumericTraits<ScalarRealType>::Zero;
@@ -111,7 +118,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 template <class TInputImage, class TOutputImage>
 void
 DifferenceImageFilter<TInputImage, TOutputImage>
-::ThreadedGenerateData(const OutputImageRegionType &threadRegion, int threadId)
+::ThreadedGenerateData(const OutputImageRegionType &threadRegion, ThreadIdType threadId)
 {
   typedef ConstNeighborhoodIterator<InputImageType>   SmartIterator;
   typedef ImageRegionConstIterator<InputImageType>    InputIterator;
@@ -197,7 +204,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
           // Update difference image statistics.
-          m_ThreadMagnitudeSum[threadId] += vcl_sqrt( minimumMagnitude2 );
+          m_ThreadMagnitudeSum[threadId] += std::sqrt( minimumMagnitude2 );
           m_ThreadNumberOfPixels[threadId]++;
           }
         else
-- 
2.43.0

