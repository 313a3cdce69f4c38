From 62884256315b21929023b5d637b9299308820fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:03 +0000
Subject: [PATCH 1/4] fix: C++98 strings of the maximum length have a size

impl::size had cases for every length below BOOST_METAPARSE_LIMIT_STRING_SIZE
but none for the limit itself, so size, empty, begin/end and with them every
parser failed to compile on a string that uses up the entire limit.
---
 include/boost/metaparse/v1/cpp98/impl/size.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/metaparse/v1/cpp98/impl/size.hpp b/include/boost/metaparse/v1/cpp98/impl/size.hpp
index 7de1241..4b7cdfc 100644
--- a/include/boost/metaparse/v1/cpp98/impl/size.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/size.hpp
@@ -28,6 +28,17 @@ namespace boost
         template <class S>
         struct size;
 
+        // A string using up the entire length limit
+        template <
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C)
+        >
+        struct
+          size<
+            string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)>
+          > :
+          boost::mpl::int_<BOOST_METAPARSE_LIMIT_STRING_SIZE>
+        {};
+
         #ifdef BOOST_METAPARSE_STRING_CASE
         #  error BOOST_METAPARSE_STRING_CASE
         #endif
-- 
2.43.0


From 0ae6e438040616d5785cfbeac212cc1e86302d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 2/4] fix: add the documented header
 boost/metaparse/error/expected_to_fail.hpp

---
 .../metaparse/error/expected_to_fail.hpp      | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)
 create mode 100644 include/boost/metaparse/error/expected_to_fail.hpp

diff --git a/include/boost/metaparse/error/expected_to_fail.hpp b/include/boost/metaparse/error/expected_to_fail.hpp
new file mode 100644
index 0000000..53ebb85
--- /dev/null
+++ b/include/boost/metaparse/error/expected_to_fail.hpp
@@ -0,0 +1,23 @@
+#ifndef BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+#define BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+
+// Copyright Abel Sinkovics (abel@sinkovics.hu)  2013.
+// Distributed under the Boost Software License, Version 1.0.
+//    (See accompanying file LICENSE_1_0.txt or copy at
+//          http://www.boost.org/LICENSE_1_0.txt)
+
+#include <boost/metaparse/v1/error/expected_to_fail.hpp>
+
+namespace boost
+{
+  namespace metaparse
+  {
+    namespace error
+    {
+      using v1::error::expected_to_fail;
+    }
+  }
+}
+
+#endif
+
-- 
2.43.0


From 084b0e394ce93397db1a1aa4e393c64ca3aea865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:26 +0000
Subject: [PATCH 3/4] fix: C++98 sequences of
 BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE parsers

The documentation says that LIMIT_SEQUENCE_SIZE is the maximum number of
parsers of sequence, nth_of(_c), first_of and last_of. With exactly that many
parsers they were incomplete types.
---
 include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp |  3 ++-
 include/boost/metaparse/v1/cpp98/impl/sequence.hpp |  3 ++-
 include/boost/metaparse/v1/cpp98/last_of.hpp       |  8 ++++++++
 include/boost/metaparse/v1/cpp98/nth_of_c.hpp      | 11 +++++++++++
 include/boost/metaparse/v1/cpp98/sequence.hpp      |  7 +++++++
 5 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
index f71728c..8a51f4c 100644
--- a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
@@ -17,6 +17,7 @@
 #include <boost/preprocessor/punctuation/comma_if.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/cat.hpp>
+#include <boost/preprocessor/arithmetic/inc.hpp>
 
 namespace boost
 {
@@ -46,7 +47,7 @@ namespace boost
           {};
         
         BOOST_PP_REPEAT(
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_NTH_OF_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
index 7f28766..2812b66 100644
--- a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
@@ -14,6 +14,7 @@
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/cat.hpp>
+#include <boost/preprocessor/arithmetic/inc.hpp>
 
 namespace boost
 {
@@ -44,7 +45,7 @@ namespace boost
         
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_SEQUENCE_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/last_of.hpp b/include/boost/metaparse/v1/cpp98/last_of.hpp
index 4e5e475..9a2764d 100644
--- a/include/boost/metaparse/v1/cpp98/last_of.hpp
+++ b/include/boost/metaparse/v1/cpp98/last_of.hpp
@@ -58,6 +58,14 @@ namespace boost
       )
       
       #undef BOOST_METAPARSE_LAST_OF_N
+
+      template <BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, class P)>
+      struct last_of :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE - 1,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
     }
   }
 }
diff --git a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
index ae86d31..12ce78b 100644
--- a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
@@ -62,6 +62,17 @@ namespace boost
       )
       
       #undef BOOST_METAPARSE_NTH_OF_N
+
+      template <
+        int N,
+        BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, class P)
+      >
+      struct nth_of_c :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          N,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
     }
   }
 }
diff --git a/include/boost/metaparse/v1/cpp98/sequence.hpp b/include/boost/metaparse/v1/cpp98/sequence.hpp
index 6aae835..9212329 100644
--- a/include/boost/metaparse/v1/cpp98/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/sequence.hpp
@@ -56,6 +56,13 @@ namespace boost
       )
       
       #undef BOOST_METAPARSE_SEQUENCE_N
+
+      template <BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, class P)>
+      struct sequence :
+        impl::BOOST_PP_CAT(sequence, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
     }
   }
 }
-- 
2.43.0


From 22a3107e212be8f1532b2a5713089666fb04e1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:26 +0000
Subject: [PATCH 4/4] fix: C++98 one_of_c and one_char_except(_c) with the
 maximum number of characters

With exactly LIMIT_ONE_OF_SIZE / LIMIT_ONE_CHAR_EXCEPT_SIZE characters, which
the documentation allows, they were incomplete types.
---
 .../boost/metaparse/v1/cpp98/impl/is_none.hpp |  3 ++-
 .../metaparse/v1/cpp98/one_char_except.hpp    | 16 +++++++++++++++
 .../metaparse/v1/cpp98/one_char_except_c.hpp  | 20 +++++++++++++++++++
 include/boost/metaparse/v1/cpp98/one_of_c.hpp | 11 ++++++++++
 4 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
index 7586586..54e7eb9 100644
--- a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/preprocessor/cat.hpp>
 #include <boost/preprocessor/arithmetic/dec.hpp>
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 
@@ -55,7 +56,7 @@ namespace boost
 
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE),
           BOOST_METAPARSE_DEFINE_IS_NONE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except.hpp b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
index 330b593..95e5d8e 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
@@ -76,6 +76,22 @@ namespace boost
       )
 
       #undef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
+
+      template <
+        BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, class C)
+      >
+      struct one_char_except :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, C)
+          >,
+          error::unexpected_character
+        >
+      {};
     }
   }
 }
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
index 5556039..506b588 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
@@ -86,6 +86,26 @@ namespace boost
         ~
       )
 
+      template <
+        BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, int C)
+      >
+      struct one_char_except_c :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM(
+              BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+              BOOST_METAPARSE_WRAP,
+              ~
+            )
+          >,
+          error::unexpected_character
+        >
+      {};
+
       #undef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
       #undef BOOST_METAPARSE_WRAP
     }
diff --git a/include/boost/metaparse/v1/cpp98/one_of_c.hpp b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
index 9a13a33..c22c8ac 100644
--- a/include/boost/metaparse/v1/cpp98/one_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
@@ -70,6 +70,17 @@ namespace boost
         ~
       )
 
+      template <BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_OF_SIZE, long C)>
+      struct one_of_c :
+        one_of<
+          BOOST_PP_ENUM(
+            BOOST_METAPARSE_LIMIT_ONE_OF_SIZE,
+            BOOST_METAPARSE_ONE_OF_C_LIT,
+            ~
+          )
+        >
+      {};
+
       #undef BOOST_METAPARSE_ONE_OF_C_CASE
       #undef BOOST_METAPARSE_ONE_OF_C_LIT
       #undef BOOST_NO_SCALAR_VALUE
-- 
2.43.0

