From fe9daeb5a24dbee67cb53b91d95adeb71d5f0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 01/88] fix: use the Joyce-Dixon and Sommerfeld coefficients in
 the Fermi integral

---
 src/MathEval/Fermi.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index 83aa28e..45bd5a4 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -39,7 +39,7 @@ template <typename T>
 T Joyce(T r)
 {
     //static const T sqrt1_8 = 1.0/sqrt(8.);
-    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_pi<T>();
+    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_two<T>();
     static const T c1 = -4.9500897298752622e-3;
     static const T c2 =  1.4838577128872821e-4;
     static const T c3 = -4.4256301190009895e-6;
@@ -61,7 +61,7 @@ template <typename T>
 T dJoycedx(T r)
 {
     //static const double sqrt1_8 = 1.0/sqrt(8.);
-    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_pi<T>();
+    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_two<T>();
     static const T c1 = -2.0*4.9500897298752622e-3;
     static const T c2 =  3.0*1.4838577128872821e-4;
     static const T c3 = -4.0*4.4256301190009895e-6;
@@ -83,7 +83,7 @@ T Expansion(T r)
 {
     /// M_PI_4 = pi/4
     // static const T d1 = 3./4.* sqrt(M_PI);
-    static const T d1 = boost::math::constants::three_quarters_pi<T>();
+    static const T d1 = 3./4. * boost::math::constants::root_pi<T>();
     //static const T d2 = 4./3.;
     static const T d2 = static_cast<T>(4.)/static_cast<T>(3.);
     //static const T d3 = - M_PI * M_PI/6;
@@ -110,7 +110,7 @@ T dExpansiondx(T r)
         static const T d1 = 3./4. * boost::math::constants::root_pi<T>();
         //static const double d2 = 1.0/3.0;
         static const T d2 = boost::math::constants::third<T>();
-        T sum = d0 * pow(d1 * r, d2) / Expansion(r);
+        T sum = d0 * pow(d1 * r, d2) / (Expansion(r) - offset);
         return sum;
 }
 
-- 
2.43.0


From 303af03ddb129e6452219696351e5fd6676f9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 02/88] fix: dBdx loses all accuracy near zero

---
 src/MathEval/Bernoulli.cc | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/MathEval/Bernoulli.cc b/src/MathEval/Bernoulli.cc
index 73a0479..b08234d 100644
--- a/src/MathEval/Bernoulli.cc
+++ b/src/MathEval/Bernoulli.cc
@@ -130,30 +130,28 @@ DoubleType derBernoulliImpl(DoubleType x)
       ret /= ex1 * ex1;
     }
 #else
-    const auto ex1 = expm1(x);
-
     //// This condition is IMPORTANT for convergence
-    //// TODO: it should be possible to calculate the breakpoint for this condition
-    if (x != ex1)
+    //// The direct formula cancels to second order, so that its relative error
+    //// is epsilon / x, use the series of the derivative near 0
+    if (fx < 1.0e-2)
+    {
+      const DoubleType x2 = x * x;
+      DoubleType ser = static_cast<DoubleType>(691.) / static_cast<DoubleType>(108972864000.);
+      ser = static_cast<DoubleType>(1.) / static_cast<DoubleType>(4790016.) - x2 * ser;
+      ser = static_cast<DoubleType>(-1.) / static_cast<DoubleType>(151200.) + x2 * ser;
+      ser = static_cast<DoubleType>(1.) / static_cast<DoubleType>(5040.) + x2 * ser;
+      ser = static_cast<DoubleType>(-1.) / static_cast<DoubleType>(180.) + x2 * ser;
+      ser = static_cast<DoubleType>(1.) / static_cast<DoubleType>(6.) + x2 * ser;
+      ret = static_cast<DoubleType>(-0.5) + x * ser;
+    }
+    else
     {
+      const auto ex1 = expm1(x);
       const auto ex2 = ex1 - (x * exp(x));
   //  const auto ex2 = (1 - x) * exp(x) - 1;
       ret = ex2;
       ret *= pow(ex1, -2);
     }
-    else
-    {
-      DoubleType num = static_cast<DoubleType>(-0.5);
-      DoubleType den = static_cast<DoubleType>( 1.0);
-      num -= x / static_cast<DoubleType>(3.);
-      den += x;
-#if 0
-      // these terms did not affect testing
-      num -= x*x / static_cast<DoubleType>(8.);
-      den += (7.*x*x)/12.;
-#endif
-      ret = num / den;
-    }
 #endif
   }
   else if (x > 0.0)
-- 
2.43.0


From 4c891fef042b3b7e7abc450e1c02ea315c688c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 03/88] fix: Fermi does not converge for a degenerate argument

---
 src/MathEval/Fermi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index 45bd5a4..ce5866f 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -166,7 +166,8 @@ template <typename T>
 T Fermi(T Eta)
 {
     //// initial guess
-    T r = exp(Eta);
+    //// exp is too far away from the solution for the iterations when degenerate
+    T r = (Eta < 2.0) ? T(exp(Eta)) : T(pow(Eta, 1.5) / (0.75 * boost::math::constants::root_pi<T>()));
 //    std::cerr << "Init: " << Eta << " " << r << std::endl;
     T rerr = 0.0;
     size_t i = 0;
-- 
2.43.0


From 68b5f79b6d8ce759087302020d684e07e9993f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 04/88] fix: overflow in a product or sum is lost when another
 operand follows

---
 src/AutoEquation/InterfaceModelExprEval.cc | 10 ++++++++++
 src/AutoEquation/ModelExprEval.cc          | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index df6f811..f8d3875 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -262,6 +262,11 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateP
       {
           out *= x;
       }
+      //// the evaluation of the next operand clears the floating point exceptions
+      if (FPECheck::CheckFPE())
+      {
+        break;
+      }
   }
 
   return out;
@@ -277,6 +282,11 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateA
   {
       InterfaceModelExprData<DoubleType> x = eval_function(values[i]);
       out += x;
+      //// the evaluation of the next operand clears the floating point exceptions
+      if (FPECheck::CheckFPE())
+      {
+        break;
+      }
   }
 
   return out;
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index bc712ed..627b9ff 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -261,6 +261,11 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateProductType(Eqo::Eq
     {
       out *= x;
     }
+    //// the evaluation of the next operand clears the floating point exceptions
+    if (FPECheck::CheckFPE())
+    {
+      break;
+    }
   }
 
   return out;
@@ -345,6 +350,11 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateAddType(Eqo::EqObjP
   {
     ModelExprData<DoubleType> x = eval_function(values[i]);
     out += x;
+    //// the evaluation of the next operand clears the floating point exceptions
+    if (FPECheck::CheckFPE())
+    {
+      break;
+    }
   }
 
   return out;
-- 
2.43.0


From 29806204fe34dc813b5cc552561b12cc98ccc4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 05/88] fix: inverse error functions return NaN or infinity
 silently outside of their domain

---
 src/MathEval/MiscMathFunc.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/MathEval/MiscMathFunc.cc b/src/MathEval/MiscMathFunc.cc
index f82410f..c25b4ba 100644
--- a/src/MathEval/MiscMathFunc.cc
+++ b/src/MathEval/MiscMathFunc.cc
@@ -13,6 +13,21 @@ SPDX-License-Identifier: Apache-2.0
 #include "BoostSpecialFunctions.hh"
 using my_policy::use_errno;
 #include <cmath>
+#include <cfenv>
+
+namespace {
+// The errno policy returns NaN or infinity outside of the domain without setting
+// the floating point exceptions, which are checked by the expression evaluation
+template <typename DoubleType>
+DoubleType checkDomain(DoubleType x)
+{
+  if (!(x - x == 0.0))
+  {
+    feraiseexcept(FE_INVALID);
+  }
+  return x;
+}
+}
 
 template <typename DoubleType>
 DoubleType derfdx(DoubleType x)
@@ -48,14 +63,14 @@ template <typename DoubleType>
 DoubleType derf_invdx(DoubleType x)
 {
   // g'(x) = 1./(f'(g(x)))
-  return 1.0 / derfdx(boost::math::erf_inv(x, use_errno()));
+  return 1.0 / derfdx(checkDomain<DoubleType>(boost::math::erf_inv(x, use_errno())));
 }
 
 template <typename DoubleType>
 DoubleType derfc_invdx(DoubleType x)
 {
   // g'(x) = 1./(f'(g(x)))
-  return 1.0 / derfcdx(boost::math::erfc_inv(x, use_errno()));
+  return 1.0 / derfcdx(checkDomain<DoubleType>(boost::math::erfc_inv(x, use_errno())));
 }
 
 
@@ -86,13 +101,13 @@ DoubleType dot2dfunc(DoubleType ax, DoubleType ay, DoubleType bx, DoubleType by)
 template <typename DoubleType>
 DoubleType erf_inv(DoubleType x)
 {
-  return boost::math::erf_inv(x, use_errno());
+  return checkDomain<DoubleType>(boost::math::erf_inv(x, use_errno()));
 }
 
 template <typename DoubleType>
 DoubleType erfc_inv(DoubleType x)
 {
-  return boost::math::erfc_inv(x, use_errno());
+  return checkDomain<DoubleType>(boost::math::erfc_inv(x, use_errno()));
 }
 
 template double erf_inv(double x);
-- 
2.43.0


From 0f582bd277defab4b9e4257f91862120d2a06b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 06/88] fix: the documented != operator cannot be evaluated

---
 src/MathEval/LogicalMath.hh | 6 ++++++
 src/MathEval/MathEval.cc    | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/MathEval/LogicalMath.hh b/src/MathEval/LogicalMath.hh
index 1c43342..c20da03 100644
--- a/src/MathEval/LogicalMath.hh
+++ b/src/MathEval/LogicalMath.hh
@@ -31,6 +31,12 @@ inline DoubleType logical_eq(DoubleType x, DoubleType y)
   return (x == y);
 }
 
+template <typename DoubleType>
+inline DoubleType logical_neq(DoubleType x, DoubleType y)
+{
+  return (x != y);
+}
+
 template <typename DoubleType>
 inline DoubleType logical_lt(DoubleType x, DoubleType y)
 {
diff --git a/src/MathEval/MathEval.cc b/src/MathEval/MathEval.cc
index d23bca9..54b18fb 100644
--- a/src/MathEval/MathEval.cc
+++ b/src/MathEval/MathEval.cc
@@ -154,6 +154,7 @@ using ::derfc_invdx;
   {"&&",  logical_and,  "obj1 && obj2       -- logical and"},
   {"||",  logical_or,  "obj1 || obj2       -- logical or"},
   {"==",  logical_eq,  "obj1 == obj2       -- logical equal"},
+  {"!=",  logical_neq,  "obj1 != obj2       -- logical not equal"},
   {"<",  logical_lt,  "obj1 < obj2       -- logical less"},
   {"<=",  logical_lte,  "obj1 <= obj2       -- logical less than equal"},
   {">",  logical_gt,  "obj1 > obj2       -- logical greater"},
@@ -301,6 +302,7 @@ using ::derfc_invdx;
   {"&&",  logical_and,  "obj1 && obj2       -- logical and"},
   {"||",  logical_or,  "obj1 || obj2       -- logical or"},
   {"==",  logical_eq,  "obj1 == obj2       -- logical equal"},
+  {"!=",  logical_neq,  "obj1 != obj2       -- logical not equal"},
   {"<",  logical_lt,  "obj1 < obj2       -- logical less"},
   {"<=",  logical_lte,  "obj1 <= obj2       -- logical less than equal"},
   {">",  logical_gt,  "obj1 > obj2       -- logical greater"},
-- 
2.43.0


From 05815edb22f79dfd69c89386136a220bee37188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 07/88] fix: igfi does not converge for a small argument

---
 src/MathEval/GaussFermi.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/MathEval/GaussFermi.cc b/src/MathEval/GaussFermi.cc
index 960cfd2..df6cc91 100644
--- a/src/MathEval/GaussFermi.cc
+++ b/src/MathEval/GaussFermi.cc
@@ -200,6 +200,16 @@ T igfi(T g, T s)
     const T H = calcH(s, S);
     x = -s * sqrt2 * erf_inv(arg) / H;
 
+    // the iteration is too slow from the degenerate approximation for small g
+    if (g > 0.0)
+    {
+      const T nondegenerate = log(g) - 0.5 * S;
+      if (nondegenerate < -S)
+      {
+        x = nondegenerate;
+      }
+    }
+
 #if 0
     // slightly less accuracy, best to use iteration
     if ((x >= -S) && (abs(arg) != bound))
-- 
2.43.0


From 4dd70f04c0a72ab0d1e415081ca527d1aaa11787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 08/88] fix: a declared but unregistered function of constants
 evaluates to zero

---
 src/MathEval/MathEval.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MathEval/MathEval.cc b/src/MathEval/MathEval.cc
index 54b18fb..0c63596 100644
--- a/src/MathEval/MathEval.cc
+++ b/src/MathEval/MathEval.cc
@@ -459,6 +459,12 @@ DoubleType MathEval<DoubleType>::EvaluateMathFunc(const std::string &func, std::
     const Eqomfp::MathWrapper<DoubleType> &MyFunc = *(it->second);
     x = MyFunc.Evaluate(vals, error);
   }
+  else
+  {
+      std::ostringstream os;
+      os << "could not find function \"" << func << "\"";
+      error += os.str();
+  }
 
   return x;
 }
-- 
2.43.0


From f0ee8fbd2108836d02fffb949831bc1c8b9ff8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 09/88] fix: if() of a model multiplies by its test instead of
 selecting

---
 src/AutoEquation/InterfaceModelExprEval.cc | 9 ++++++---
 src/AutoEquation/ModelExprEval.cc          | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index f8d3875..2e4f504 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -316,9 +316,12 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
   }
   else
   {
-    // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    margv_t margv;
+    margv.reserve(3);
+    margv.push_back(test);
+    margv.push_back(eval_function(values[1]));
+    margv.push_back(InterfaceModelExprData<DoubleType>(0.0));
+    out = EvaluateExternalMath("ifelse", margv);
   }
 
   return out;
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index 627b9ff..21efb54 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -295,9 +295,12 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateIfType(Eqo::EqObjPt
   }
   else
   {
-    // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    margv_t margv;
+    margv.reserve(3);
+    margv.push_back(test);
+    margv.push_back(eval_function(values[1]));
+    margv.push_back(ModelExprData<DoubleType>(0.0, data_ref));
+    out = EvaluateExternalMath("ifelse", margv);
   }
 
   return out;
-- 
2.43.0


From 09dba397b97ee5692883d76a4bd7613cc8a72d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 10/88] fix: redefining a model leaves the models that depend
 on it stale

A model that has been read keeps its value until it is signalled.  Replacing
(or adding) a model, or deleting an interface model, did not signal, so models
depending on it kept returning values of the previous definition.
---
 src/Geometry/Interface.cc | 2 ++
 src/Geometry/Region.cc    | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index 821ee36..6137feb 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -101,6 +101,7 @@ void Interface::AddInterfaceNodeModel(InterfaceNodeModelPtr nmp)
     }
 
     interfaceNodeModels[nm] = nmp;
+    this->SignalCallbacks(nm);
 }
 
 ConstInterfaceNodeModelPtr Interface::GetInterfaceNodeModel(const std::string &nm) const
@@ -121,6 +122,7 @@ void Interface::DeleteInterfaceNodeModel(const std::string &nm)
   if (it != interfaceNodeModels.end())
   {
     interfaceNodeModels.erase(it);
+    this->SignalCallbacks(nm);
   }
 }
 
diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 03d4b25..acd9bcb 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -891,6 +891,7 @@ void Region::AddNodeModel(NodeModelPtr nmp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         nodeModels[nm] = nmp;
+        this->SignalCallbacks(nm);
     }
     else if (edgeModels.count(nm))
     {
@@ -916,6 +917,7 @@ void Region::AddNodeModel(NodeModelPtr nmp)
     else
     {
       nodeModels[nm] = nmp;
+      this->SignalCallbacks(nm);
     }
 }
 
@@ -929,6 +931,7 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         edgeModels[nm] = emp;
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -954,6 +957,7 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
     else
     {
       edgeModels[nm] = emp;
+      this->SignalCallbacks(nm);
     }
 }
 
@@ -967,6 +971,7 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         triangleEdgeModels[nm] = emp;
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -992,6 +997,7 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
     else
     {
       triangleEdgeModels[nm] = emp;
+      this->SignalCallbacks(nm);
     }
 }
 
@@ -1005,6 +1011,7 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         tetrahedronEdgeModels[nm] = emp;
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -1030,6 +1037,7 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
     else
     {
       tetrahedronEdgeModels[nm] = emp;
+      this->SignalCallbacks(nm);
     }
 }
 
-- 
2.43.0


From d07f6ea479032b5f31a5a3a0726c80efacc0e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 11/88] fix: a uniform interface model has length zero in other
 interface models

InterfaceNodeModel::GetLength returned a member that was never set, so an
interface model using one with a uniform value was empty or zero.
---
 src/models/InterfaceNodeModel.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/models/InterfaceNodeModel.hh b/src/models/InterfaceNodeModel.hh
index f6b45fa..9c2e91d 100644
--- a/src/models/InterfaceNodeModel.hh
+++ b/src/models/InterfaceNodeModel.hh
@@ -93,7 +93,7 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
 
         size_t GetLength() const
         {
-          return length;
+          return model_data.GetLength();
         }
 
         bool IsZero() const;
@@ -137,7 +137,6 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
         mutable bool uptodate = false;
         mutable bool inprocess = false;
         mutable ModelDataHolder model_data;
-        size_t length = 0;
 };
 
 template <typename T1, typename T2, typename ... Args>
-- 
2.43.0


From 0bfee05ab016eb1cb32c79f420152c7a891edeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 12/88] fix: a cyclic interface model evaluates to zero instead
 of an error

The cycle was reported, but the operand was then replaced by 0.0 and the
evaluation succeeded; region models raise an error for the same input.
---
 src/AutoEquation/InterfaceModelExprEval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index 2e4f504..c64dfc6 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -180,7 +180,7 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
         std::ostringstream os;
         os << "Cyclic dependency while evaluating InterfaceNodeModel \"" << m;
         errors.push_back(os.str());
-        out = InterfaceModelExprData<DoubleType>();
+        return InterfaceModelExprData<DoubleType>();
       }
       else
       {
-- 
2.43.0


From 8e84d551f11959e2da0e883efe5c26d06da60efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 13/88] fix: a uniform edge model converted to element data in
 3d has the wrong length

The length was taken from the triangles of the region instead of its
tetrahedra, so the result had the wrong size or wrote out of bounds.
---
 src/AutoEquation/ModelExprData.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AutoEquation/ModelExprData.cc b/src/AutoEquation/ModelExprData.cc
index 9b4cefc..5d7dfcc 100644
--- a/src/AutoEquation/ModelExprData.cc
+++ b/src/AutoEquation/ModelExprData.cc
@@ -280,7 +280,7 @@ void ModelExprData<DoubleType>::convertToTetrahedronEdgeData()
     if (edgeScalarData->IsUniform())
     {
       const DoubleType val = edgeScalarData->GetUniformValue();
-      size_t       len = 6 * reg->GetTriangleList().size();
+      size_t       len = 6 * reg->GetTetrahedronList().size();
 
       type = datatype::TETRAHEDRONEDGEDATA;
       TetrahedronEdgeScalarData<DoubleType> *e = new TetrahedronEdgeScalarData<DoubleType>(val, len);
-- 
2.43.0


From add1d2a0a83289513e5d8599dcce685b6f3b1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 14/88] fix: extended precision pow truncates an exponent close
 to an integer

IsInt tested the exponent rounded to double, and the caller then truncated
the extended value, so pow(0.5, tanh(37.5)) was 1 instead of 0.5.
---
 src/MathEval/MathWrapper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathEval/MathWrapper.cc b/src/MathEval/MathWrapper.cc
index be4da47..af8108a 100644
--- a/src/MathEval/MathWrapper.cc
+++ b/src/MathEval/MathWrapper.cc
@@ -197,7 +197,9 @@ template <typename DoubleType>
 inline bool IsInt(DoubleType x)
 {
   double y;
-  return ((modf(static_cast<double>(x), &y) == 0) &&
+  const double xd = static_cast<double>(x);
+  return ((modf(xd, &y) == 0) &&
+          (xd == x) &&
           (x >= std::numeric_limits<int>::min()) &&
           (x <= std::numeric_limits<int>::max())
          );
-- 
2.43.0


From 2c705be965fe8f357af4d702d00b2c2d3a4f7acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 15/88] fix: setting a circuit node does not update models
 using another of its names

Models may refer to the node or to any alias of it, only those using the
name given to set_circuit_node_value were marked out of date.
---
 src/commands/CircuitCommands.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 0c7d982..6515afb 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -551,7 +551,8 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     else if (commandName == "set_circuit_node_value")
     {
         nk.SetNodeValue(solution, node, val);
-        nk.TriggerCallbackOnNode(node);
+        // a node may be referred to by any of its aliases
+        nk.TriggerCallbacksOnNodes();
         data.SetEmptyResult();
     }
 }
-- 
2.43.0


From 0b270424a3ba2157ab5fe34f9f1fa0cfcb9da927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 16/88] fix: set_node_value is not seen by extended precision
 models

Setting a single value left the copy converted to the other numeric type
unchanged, so models reading that type kept the previous value.
---
 src/models/ModelDataHolder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index a574dcf..e91d823 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -292,6 +292,8 @@ void ModelDataHolder::SetValue(size_t index, const float128 &nv)
   set_type(MDtype::EXTENDED);
 
   expand_uniform();
+  // the converted copy is no longer valid
+  clear_type(MDtype::DOUBLE);
 
   float128_values[index] = nv;
 
@@ -315,6 +317,8 @@ void ModelDataHolder::SetValue(size_t index, const double &nv)
   else if (type == MDtype::DOUBLE)
   {
     expand_uniform();
+    // the converted copy is no longer valid
+    clear_type(MDtype::EXTENDED);
 
     double_values[index] = nv;
   }
-- 
2.43.0


From 337d905ca9453dcb0e4c7dcb461dd380bd1c75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 17/88] fix: vector_gradient in 3D used y instead of z

---
 src/Geometry/GradientField.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/GradientField.cc b/src/Geometry/GradientField.cc
index 4e007e7..e545eb2 100644
--- a/src/Geometry/GradientField.cc
+++ b/src/Geometry/GradientField.cc
@@ -89,7 +89,7 @@ void GradientField<DoubleType>::CalcMatrices3d() const
   //// Assert fields exist
   ConstNodeModelPtr ux = myregion_->GetNodeModel("x");
   ConstNodeModelPtr uy = myregion_->GetNodeModel("y");
-  ConstNodeModelPtr uz = myregion_->GetNodeModel("y");
+  ConstNodeModelPtr uz = myregion_->GetNodeModel("z");
 
   dsAssert(ux.get(), "UNEXPECTED");
   dsAssert(uy.get(), "UNEXPECTED");
-- 
2.43.0


From d919394cbce7777ffa1d0e2d8035ab3b9b045844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 18/88] fix: sign of the geometric average derivative for
 negative node values

---
 src/GeomModels/AverageEdgeModel.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GeomModels/AverageEdgeModel.cc b/src/GeomModels/AverageEdgeModel.cc
index bc7980e..f421d79 100644
--- a/src/GeomModels/AverageEdgeModel.cc
+++ b/src/GeomModels/AverageEdgeModel.cc
@@ -131,6 +131,11 @@ struct Geometric {
   std::pair<DoubleType, DoubleType> operator()(DoubleType x, DoubleType xd, DoubleType y, DoubleType yd) const
   {
     DoubleType ratio = sqrt(y/x);
+    if (x < 0.0)
+    {
+      //// the average of two negative values grows as they become more negative
+      ratio = -ratio;
+    }
     return std::make_pair(0.5 * xd * ratio, 0.5 * yd /ratio);
   }
 };
-- 
2.43.0


From 2b0293e5515430e81efa2dd01e27b7d36d55133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 19/88] fix: volume of a rotated triangle whose apex is farther
 from the axis

---
 src/GeomModels/TriangleCylindricalNodeVolume.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index db0043a..cf12470 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -116,15 +116,10 @@ namespace {
 template <typename DoubleType>
 DoubleType calcCylindricalTriangleVolumeFlat(DoubleType r0, DoubleType z0, DoubleType r1, DoubleType z1, DoubleType r2)
 {
-  DoubleType ret = 0.0;
   const DoubleType z = abs(z1 - z0);
-  const DoubleType r20_2 = pow((r2 - r0), 2.0);
-  const DoubleType r10_2 = pow((r1 - r0), 2.0);
-
-  ret = abs(r20_2 - r10_2) * z / 3.0;
 
-  const DoubleType r21 = abs(r2 - r1);
-  ret += r21 * r0 * z;
+  // triangle area times the length of the path of its centroid
+  DoubleType ret = abs((r2 - r1) * (r0 + r1 + r2)) * z / 3.0;
   ret *= M_PI;
 
   return ret;
-- 
2.43.0


From 13a12d75691193cd69efd016d66c8bf948d74602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 20/88] fix: CylindricalEdgeNodeVolume@n0 was overwritten with
 zeros

---
 src/GeomModels/CylindricalEdgeNodeVolume.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/GeomModels/CylindricalEdgeNodeVolume.cc b/src/GeomModels/CylindricalEdgeNodeVolume.cc
index 4ef4b34..8666b64 100644
--- a/src/GeomModels/CylindricalEdgeNodeVolume.cc
+++ b/src/GeomModels/CylindricalEdgeNodeVolume.cc
@@ -43,9 +43,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
 
   dsAssert(dimension == 2, "CylindricalEdgeNodeVolume 2d Only");
 
-  std::vector<DoubleType> nv(r.GetNumberNodes());
-
-
   if (dimension == 2)
   {
     const Region &region = GetRegion();
@@ -67,8 +64,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
   {
     dsAssert(false, "UNEXPECTED");
   }
-
-  SetValues(nv);
 }
 
 template <typename DoubleType>
-- 
2.43.0


From c8043484c81b53ebc1d7d9e3c4a8cd1805337cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 21/88] fix: 1D contact surface area of nodes whose contact is
 on another region

---
 src/GeomModels/SurfaceArea.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GeomModels/SurfaceArea.cc b/src/GeomModels/SurfaceArea.cc
index 23d6082..c7fef90 100644
--- a/src/GeomModels/SurfaceArea.cc
+++ b/src/GeomModels/SurfaceArea.cc
@@ -19,6 +19,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Contact.hh"
 #include "Interface.hh"
 
+#include <algorithm>
 #include <iterator>
 #include <utility>
 
@@ -95,7 +96,10 @@ void SurfaceArea<DoubleType>::calcSurfaceArea1d() const
             const DoubleType length = 1.0;
             nv[ni] += length;
         }
-        if (ctc.count(ci))
+        //// contacts of other regions may share the coordinate of an interface node
+        const auto cit = ctc.find(ci);
+        if ((cit != ctc.end()) && std::any_of(cit->second.begin(), cit->second.end(),
+              [this](const ContactPtr &cp) { return cp->GetRegion() == &GetRegion(); }))
         {
             const DoubleType length = 1.0;
             ca[ni] += length;
-- 
2.43.0


From 1211e158026341bff688459c6be0bef568e01e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 22/88] fix: create_contact_from_interface crash in 2D

---
 src/Geometry/Interface.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index 6137feb..d81b658 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -277,6 +277,12 @@ void Interface::FindEdges() const
 
 void Interface::FindTriangles() const
 {
+  if (GetRegion0()->GetDimension() != 3)
+  {
+    //// interfaces have triangles only in 3D
+    return;
+  }
+
   triangles0.clear();
   triangles1.clear();
   edges0.clear();
-- 
2.43.0


From 64ee518eae6954d0f16c7fadefca238505475692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 23/88] fix: additional bounding boxes of a 2d region, contact
 or interface were dropped

---
 src/commands/MeshingCommands.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index ce93994..a919789 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -462,9 +462,9 @@ add2dInterfaceCmd(CommandHandler &data)
         else
         {
             dsMesh::MeshInterface2dPtr ip(new dsMesh::MeshInterface2d(name, region0Name, region1Name));
-            m2dp->AddInterface(ip);
             dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
             ip->AddBoundingBox(bb);
+            m2dp->AddInterface(ip);
             data.SetEmptyResult();
         }
     }
@@ -523,9 +523,9 @@ add2dContactCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshContact2dPtr cp(new dsMesh::MeshContact2d(name, materialName, regionName));
-        m2dp->AddContact(cp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         cp->AddBoundingBox(bb);
+        m2dp->AddContact(cp);
         data.SetEmptyResult();
     }
 }
@@ -628,9 +628,9 @@ add2dRegionCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshRegion2dPtr rp(new dsMesh::MeshRegion2d(regionName, materialName));
-        m2dp->AddRegion(rp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         rp->AddBoundingBox(bb);
+        m2dp->AddRegion(rp);
         data.SetEmptyResult();
     }
 }
-- 
2.43.0


From a13bdebb83d9a372a729ca07f9116706a08d2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 24/88] fix: a 1d mesh cannot be completed after a failed
 finalize_mesh

---
 src/meshing/Mesh1d.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/meshing/Mesh1d.cc b/src/meshing/Mesh1d.cc
index 04d986b..467e651 100644
--- a/src/meshing/Mesh1d.cc
+++ b/src/meshing/Mesh1d.cc
@@ -56,6 +56,14 @@ void Mesh1d::SetLocationsAndTags()
 {
     dsAssert(!points.empty(), "UNEXPECTED");
 
+    //// Start over when a previous attempt to finalize the mesh has failed
+    locations.clear();
+    tagsToIndices.clear();
+    indicesToTags.clear();
+    indexToInterfaceIndex.clear();
+    indexToContactIndex.clear();
+    indexToRegionIndex.clear();
+
     sort(points.begin(), points.end());
 
     double xl = points[0].getPosition();
-- 
2.43.0


From 6e8b513c4c0eabc768deb789a9a832303f95550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 25/88] fix: create_device leaves a partially built device when
 it fails

---
 src/meshing/Mesh.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/meshing/Mesh.cc b/src/meshing/Mesh.cc
index 7ab7b68..f6c842f 100644
--- a/src/meshing/Mesh.cc
+++ b/src/meshing/Mesh.cc
@@ -6,6 +6,7 @@ SPDX-License-Identifier: Apache-2.0
 ***/
 
 #include "Mesh.hh"
+#include "GlobalData.hh"
 #include <sstream>
 namespace dsMesh {
 Mesh::Mesh(const std::string &n) : name(n), finalized(false)
@@ -43,7 +44,28 @@ bool Mesh::Instantiate(const std::string &name, std::string &errorString)
         return ret;
     }
 
-    ret = this->Instantiate_(name, errorString);
+    //// Do not leave a partially built device behind
+    GlobalData &gdata = GlobalData::GetInstance();
+    const bool exists = gdata.GetDevice(name) != nullptr;
+
+    try
+    {
+        ret = this->Instantiate_(name, errorString);
+    }
+    catch (...)
+    {
+        if (!exists)
+        {
+            gdata.DeleteDevice(name);
+        }
+        throw;
+    }
+
+    if (!ret && !exists)
+    {
+        gdata.DeleteDevice(name);
+    }
+
     return ret;
 }
 
-- 
2.43.0


From ffa92ae6a95d4310dfc6bf2cee4bca825012316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 26/88] fix: mesh lines accept positions and spacings that
 never end or are not numbers

---
 src/commands/CheckFunctions.cc  | 20 +++++++++++++++++++-
 src/commands/CheckFunctions.hh  |  1 +
 src/commands/MeshingCommands.cc |  8 ++++----
 src/meshing/MeshUtil.cc         |  5 ++++-
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/commands/CheckFunctions.cc b/src/commands/CheckFunctions.cc
index 1e536cb..fd8f347 100644
--- a/src/commands/CheckFunctions.cc
+++ b/src/commands/CheckFunctions.cc
@@ -11,6 +11,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "MeshKeeper.hh"
 #include "Mesh1d.hh"
 #include "Validate.hh"
+#include <cmath>
 #include <sstream>
 namespace dsCommand {
 
@@ -20,7 +21,7 @@ bool mustBePositive(const std::string &optionName, std::string &errorString, con
 
     const double dval = args.GetDoubleOption(optionName);
 
-    if (dval <= 0)
+    if (!(dval > 0))
     {
         std::ostringstream os;
         os << "-" << optionName << " must be greater than 0.0\n";
@@ -31,6 +32,23 @@ bool mustBePositive(const std::string &optionName, std::string &errorString, con
     return ret;
 }
 
+bool mustBeFinite(const std::string &optionName, std::string &errorString, const CommandHandler &args)
+{
+    bool ret = true;
+
+    const double dval = args.GetDoubleOption(optionName);
+
+    if (!std::isfinite(dval))
+    {
+        std::ostringstream os;
+        os << "-" << optionName << " must be finite\n";
+        errorString += os.str();
+        ret = false;
+    }
+
+    return ret;
+}
+
 
 bool stringCannotBeEmpty(const std::string &optionName, std::string &errorString, const CommandHandler &args)
 {
diff --git a/src/commands/CheckFunctions.hh b/src/commands/CheckFunctions.hh
index 7a9f9db..45a69d2 100644
--- a/src/commands/CheckFunctions.hh
+++ b/src/commands/CheckFunctions.hh
@@ -14,6 +14,7 @@ class GetArgs;
 class CommandHandler;
 namespace dsCommand {
 bool mustBePositive(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
+bool mustBeFinite(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool stringCannotBeEmpty(const std::string &/*optionName*/,std::string &/*errorString*/, const CommandHandler &);
 bool meshCannotExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool meshMustExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index a919789..b78aa08 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -185,9 +185,9 @@ add1dMeshLineCmd(CommandHandler &data)
     static dsGetArgs::Option option[] = {
         {"mesh",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
         {"tag",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, nullptr},
+        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeFinite},
 /// this will default to plus spacing
-        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeFinite},
         {"ps",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBePositive},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
     };
@@ -246,9 +246,9 @@ add2dMeshLineCmd(CommandHandler &data)
     using namespace dsGetArgs;
     static dsGetArgs::Option option[] = {
         {"mesh",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
-        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, nullptr},
+        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeFinite},
 /// this will default to plus spacing
-        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeFinite},
         {"ps",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBePositive},
         {"dir",    "",  dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, nullptr},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
diff --git a/src/meshing/MeshUtil.cc b/src/meshing/MeshUtil.cc
index 8ec4d1a..8c49cbb 100644
--- a/src/meshing/MeshUtil.cc
+++ b/src/meshing/MeshUtil.cc
@@ -24,6 +24,7 @@ pts_t equidistance(double xl, double xh, double sl)
     double x = xl;
     while (x < xh)
     {
+        dsAssert(x + sl > x, "mesh spacing is too small");
         x += sl;
         if (x > (xh - tolerance))
         {
@@ -47,7 +48,9 @@ pts_t variable(double xl, double xh, double sl, double sh)
     ret.push_back(xl);
     for (size_t i = 0; x < xh; ++i)
     {
-        x += sl*pow(r, int(i));
+        const double dx = sl*pow(r, int(i));
+        dsAssert(x + dx > x, "mesh spacing is too small");
+        x += dx;
         if (x > (xh - tolerance))
         {
             x = xh;
-- 
2.43.0


From 7339a2cf9510dd11be5c2ed323c5a6a722fe9c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 27/88] fix: graded mesh spacing adds a point a rounding error
 away from another

---
 src/meshing/MeshUtil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshing/MeshUtil.cc b/src/meshing/MeshUtil.cc
index 8c49cbb..447b444 100644
--- a/src/meshing/MeshUtil.cc
+++ b/src/meshing/MeshUtil.cc
@@ -57,7 +57,7 @@ pts_t variable(double xl, double xh, double sl, double sh)
 
             /// need to have at least one pt with the minimum spacing
             double tpos = x - sh;
-            if (ret.back() < tpos)
+            if (ret.back() < tpos - tolerance)
             {
                 ret.push_back(tpos);
             }
-- 
2.43.0


From f313a7b1badc542b3ac8b4843d9c34eccbfaf5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 28/88] fix: pythonmesh cannot read a gmsh file with point
 elements

---
 python_packages/pythonmesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python_packages/pythonmesh.py b/python_packages/pythonmesh.py
index 19a1098..d014524 100644
--- a/python_packages/pythonmesh.py
+++ b/python_packages/pythonmesh.py
@@ -80,6 +80,7 @@ def read_gmsh_file(filename):
     _all_physical_numbers = sorted(set([x[3] for x in data["elements"]]))
     sorted_physical_names = sorted(data["physical_names"], key=lambda x: x[0])
     physical_number_map = {
+        0: {},
         1: {},
         2: {},
         3: {},
@@ -110,8 +111,9 @@ def read_gmsh_file(filename):
         elif t == 15:
             # point
             etype = 0
+            dimension = 0
         else:
-            raise RuntimeError("Cannot handle element type " % i)
+            raise RuntimeError("Cannot handle element type %d" % t)
 
         # physical number
         # will be remapped later
-- 
2.43.0


From a19567be000f4bd64d7f3a5df9a5a1af83e0176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 29/88] fix: integers beyond int in a gmsh file are read as
 other numbers

---
 src/meshing/GmshParser.y  | 2 +-
 src/meshing/GmshScanner.l | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/meshing/GmshParser.y b/src/meshing/GmshParser.y
index b4795e6..056cbea 100644
--- a/src/meshing/GmshParser.y
+++ b/src/meshing/GmshParser.y
@@ -153,7 +153,7 @@ number : FLOAT {
 	} |
 	INT
 	{
-	    $$ = $1;
+	    $$ = $<dval>1;
 	}
 	;
 
diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index c996e72..182cc5c 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -44,7 +44,12 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 <NODES_SEC>{float1}|{float2}|{float3}    {Gmshlval.dval = atof(yytext); return FLOAT;}
 
-<PHYSICALNAMES_SEC,NODES_SEC,ELEMENTS_SEC>{integer}   {Gmshlval.dval = atof(yytext); Gmshlval.ival = atof(yytext); return INT;}
+<PHYSICALNAMES_SEC,NODES_SEC,ELEMENTS_SEC>{integer}   {
+		Gmshlval.dval = atof(yytext);
+		/// an integer out of range is not a valid index, but may be a coordinate
+		Gmshlval.ival = ((Gmshlval.dval > -2147483648.0) && (Gmshlval.dval < 2147483648.0)) ? static_cast<int>(Gmshlval.dval) : -1;
+		return INT;
+	    }
 
 <INITIAL>^\$MeshFormat {
 		yy_push_state(MESHFORMAT_SEC);
-- 
2.43.0


From cbef7e1f0e823668e00a5c8f7ea6fb63b0ed4894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 30/88] fix: write enough digits to restore values from device
 files exactly

---
 src/meshing/DevsimRestartWriter.cc | 2 +-
 src/meshing/DevsimWriter.cc        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 69bd1ee..5e56ce2 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -179,7 +179,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
   std::ios oldState(nullptr);
   oldState.copyfmt(myfile);
 
-  myfile << std::setprecision(15) << std::scientific;
+  myfile << std::setprecision(16) << std::scientific;
   GlobalData   &gdata = GlobalData::GetInstance();
 
   DevicePtr dp = gdata.GetDevice(dname);
diff --git a/src/meshing/DevsimWriter.cc b/src/meshing/DevsimWriter.cc
index 5e1f65a..2bb5e88 100644
--- a/src/meshing/DevsimWriter.cc
+++ b/src/meshing/DevsimWriter.cc
@@ -132,7 +132,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
     std::ios oldState(nullptr);
     oldState.copyfmt(myfile);
 
-    myfile << std::setprecision(15) << std::scientific;
+    myfile << std::setprecision(16) << std::scientific;
     GlobalData   &gdata = GlobalData::GetInstance();
 
     DevicePtr dp = gdata.GetDevice(dname);
-- 
2.43.0


From 5c3456f4ac158f52e2be0732b087ec2df78a4f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 31/88] fix: save element_from_edge_model derivatives of 3d
 devices as such

---
 src/models/TetrahedronEdgeFromEdgeModelDerivative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
index 2cd56ed..48c6d34 100644
--- a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
+++ b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
@@ -147,7 +147,7 @@ void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::calcTetrahedronEdgeScal
 template <typename DoubleType>
 void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_pair_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
+  of << "COMMAND element_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
 }
 
 template class TetrahedronEdgeFromEdgeModelDerivative<double>;
-- 
2.43.0


From a7432ab2fbc739054eea2cd678837e9160130c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:08 +0000
Subject: [PATCH 32/88] fix: print constants in expressions with the digits
 that give the same value

---
 src/adiff/EquationObject.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 20d800d..0c9dbed 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -289,9 +289,14 @@ Constant::Constant(double x) : EquationObject(CONST_OBJ), dvalue(x)
 std::string Constant::createStringValue()
 {
     std::ostringstream os;
+    // the string must give back the same value
     if (dvalue != floor(dvalue))
     {
-      os << std::scientific << std::setprecision(15);
+      os << std::scientific << std::setprecision(16);
+    }
+    else
+    {
+      os << std::setprecision(17);
     }
     if (dvalue < 0.0)
     {
-- 
2.43.0


From c1ee3a3a6ba9c1460823f9e1668208ebef26f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 33/88] fix: save cylindrical models with the commands that
 create them

---
 src/GeomModels/TriangleCylindricalEdgeCouple.cc | 2 +-
 src/GeomModels/TriangleCylindricalNodeVolume.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GeomModels/TriangleCylindricalEdgeCouple.cc b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
index 80924fe..aaaf29a 100644
--- a/src/GeomModels/TriangleCylindricalEdgeCouple.cc
+++ b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
@@ -161,7 +161,7 @@ Vector<DoubleType> TriangleCylindricalEdgeCouple<DoubleType>::calcTriangleCylind
 template <typename DoubleType>
 void TriangleCylindricalEdgeCouple<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalEdgeCouple<double>;
diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index cf12470..cb8d00b 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -256,7 +256,7 @@ std::vector<DoubleType> TriangleCylindricalNodeVolume<DoubleType>::calcTriangleC
 template <typename DoubleType>
 void TriangleCylindricalNodeVolume<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalNodeVolume<double>;
-- 
2.43.0


From 9c7893af305c05aac7abe248cafbb8ee6cdabe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:57 +0000
Subject: [PATCH 34/88] fix: keep the node pairs of interfaces given by nodes
 when a loaded device is saved again

---
 src/Geometry/Interface.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index d81b658..6177ff2 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -473,7 +473,7 @@ void Interface::AddEdges(const ConstEdgeList &elist0, const ConstEdgeList &elist
   rp1->SignalCallbacks("@@@InterfaceChange");
   if (rp0->GetDimension() == 2)
   {
-    elements_provided_ = true;
+    elements_provided_ = !(edges0.empty() || edges1.empty());
   }
 }
 
@@ -483,7 +483,7 @@ void Interface::AddTriangles(const ConstTriangleList &tlist0, const ConstTriangl
   triangles1 = tlist1;
   rp0->SignalCallbacks("@@@InterfaceChange");
   rp1->SignalCallbacks("@@@InterfaceChange");
-  elements_provided_ = true;
+  elements_provided_ = !(triangles0.empty() || triangles1.empty());
 }
 
 bool Interface::UseExtendedPrecisionType(const std::string &t) const
-- 
2.43.0


From 9b13876662e5262439eb6f0ab5cac841acdc3a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 35/88] fix: do not use the values of a model whose evaluation
 failed

---
 src/models/EdgeModel.cc            | 2 ++
 src/models/NodeModel.cc            | 2 ++
 src/models/TetrahedronEdgeModel.cc | 2 ++
 src/models/TriangleEdgeModel.cc    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index 75ca993..c4d90af 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -87,6 +87,8 @@ void EdgeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    // these values must not be used the next time
+    this->MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index f085e38..e8a6912 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -109,6 +109,8 @@ void NodeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the node model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    // these values must not be used the next time
+    this->MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 55a5582..28f6c8f 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -85,6 +85,8 @@ void TetrahedronEdgeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    // these values must not be used the next time
+    this->MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 84d6554..a1b1093 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -83,6 +83,8 @@ void TriangleEdgeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    // these values must not be used the next time
+    this->MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
-- 
2.43.0


From df6b34197700a2cde8232c67a671d6abadf8ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 36/88] fix: report files that cannot be opened or written

---
 src/meshing/DevsimRestartWriter.cc | 17 ++++++++++++++---
 src/meshing/DevsimWriter.cc        | 17 ++++++++++++++---
 src/meshing/TecplotWriter.cc       | 17 ++++++++++++++---
 src/meshing/VTKWriter.cc           | 17 ++++++++++++++---
 4 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 5e56ce2..abd4249 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -405,7 +405,7 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (myfile.fail())
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -414,6 +414,12 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
     }
+    myfile.close();
+    if (ret && myfile.fail())
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
     errorString += os.str();
     return ret;
 }
@@ -425,7 +431,7 @@ bool DevsimRestartWriter::WriteMeshes_(const std::string &filename, MeshWriterTe
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (myfile.fail())
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -433,13 +439,18 @@ bool DevsimRestartWriter::WriteMeshes_(const std::string &filename, MeshWriterTe
 
     GlobalData   &gdata = GlobalData::GetInstance();
     const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
-    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
+    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); ret && (dit != dlist.end()); ++dit)
     {
         const std::string &dname = dit->first;
         ret = WriteSingleDevice(dname, myfile, errorString);
     }
 
     myfile.close();
+    if (ret && myfile.fail())
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/DevsimWriter.cc b/src/meshing/DevsimWriter.cc
index 2bb5e88..0dc09c7 100644
--- a/src/meshing/DevsimWriter.cc
+++ b/src/meshing/DevsimWriter.cc
@@ -244,7 +244,7 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (myfile.fail())
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -253,6 +253,12 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
     }
+    myfile.close();
+    if (ret && myfile.fail())
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
     errorString += os.str();
     return ret;
 }
@@ -264,7 +270,7 @@ bool DevsimWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t, s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (myfile.fail())
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -272,13 +278,18 @@ bool DevsimWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t, s
 
     GlobalData   &gdata = GlobalData::GetInstance();
     const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
-    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
+    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); ret && (dit != dlist.end()); ++dit)
     {
         const std::string &dname = dit->first;
         ret = WriteSingleDevice(dname, myfile, errorString);
     }
 
     myfile.close();
+    if (ret && myfile.fail())
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index ba61f36..e74635e 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -797,7 +797,7 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (myfile.fail())
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
@@ -806,6 +806,12 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
     {
         ret = Tecplot::WriteSingleDevice(deviceName, myfile, include_test, errorString);
     }
+    myfile.close();
+    if (ret && myfile.fail())
+    {
+        ret = false;
+        os << "Could not write " << filename << "\n";
+    }
     errorString += os.str();
     return ret;
 }
@@ -817,7 +823,7 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (myfile.fail())
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
@@ -833,13 +839,18 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
     }
     else
     {
-        for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
+        for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); ret && (dit != dlist.end()); ++dit)
         {
             const std::string &dname = dit->first;
             ret = Tecplot::WriteSingleDevice(dname, myfile, include_test, errorString);
         }
     }
     myfile.close();
+    if (ret && myfile.fail())
+    {
+        ret = false;
+        os << "Could not write " << filename << "\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index 1c7f35a..fa2c19e 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -474,12 +474,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     std::ofstream visitfile;
     vtmfile.open (vtmfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
     visitfile.open (visitfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (vtmfile.bad())
+    if (vtmfile.fail())
     {
       ret = false;
       os << "Could not open " << vtmfilename << " for writing\n";
     }
-    else if (visitfile.bad())
+    else if (visitfile.fail())
     {
       ret = false;
       os << "Could not open " << visitfilename << " for writing\n";
@@ -503,7 +503,7 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
         std::ofstream vtufile;
         vtufile.open (vtufilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-        if (vtufile.bad())
+        if (vtufile.fail())
         {
             ret = false;
             os << "Could not open " << vtufilename << " for writing\n";
@@ -521,6 +521,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
           vtufile << "\n";
           vtufile.close();
+          if (vtufile.fail())
+          {
+            ret = false;
+            os << "Could not write " << vtufilename << "\n";
+            break;
+          }
           vtufiles.push_back(vtufilename);
         }
         ++i;
@@ -549,6 +555,11 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     }
     vtmfile.close();
     visitfile.close();
+    if (ret && (vtmfile.fail() || visitfile.fail()))
+    {
+      ret = false;
+      os << "Could not write " << vtmfilename << " and " << visitfilename << "\n";
+    }
   }
   errorString += os.str();
   return ret;
-- 
2.43.0


From eb62af1b2157b1e828edd9ef86dc20fcda38b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 37/88] fix: keep the last block of VTK arrays that fill their
 blocks exactly

---
 src/utility/base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/base64.cc b/src/utility/base64.cc
index 6fd1e43..296ff09 100644
--- a/src/utility/base64.cc
+++ b/src/utility/base64.cc
@@ -98,7 +98,7 @@ template <typename T> std::string convertVectorToZlibBase64(const std::vector<T>
   for (size_t i = 0; i < numberOfBlocks; ++i)
   {
     size_t inputLength = maxLength;
-    if (i == (numberOfBlocks - 1))
+    if ((i == (numberOfBlocks - 1)) && (numberTInPartialBlock != 0))
     {
       inputLength = sizeof(T) * numberTInPartialBlock;
     }
-- 
2.43.0


From ec9425b19059051dc0a4363d2b62fce8a9cbcd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 38/88] fix: apply include_test to vector edge models and
 tetrahedron edge models in VTK files

---
 src/meshing/VTKWriter.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index fa2c19e..967fecb 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -158,6 +158,11 @@ void WritePointData(const Region &reg, MeshWriterTest_t include_test, std::ostre
       const std::string &nm = it->first;
       const EdgeModel &em = *(it->second);
 
+      if (!include_test(nm))
+      {
+        continue;
+      }
+
       if (em.GetDisplayType() == EdgeModel::DisplayType::VECTOR)
       {
         const NodeVectorList<double> &nvl = em.GetVectorValuesOnNodes<double>();
@@ -239,6 +244,11 @@ void WriteElementData(const Region &reg, MeshWriterTest_t include_test, std::ost
       const std::string &nm = it->first;
       const TetrahedronEdgeModel &em = *(it->second);
 
+      if (!include_test(nm))
+      {
+          continue;
+      }
+
       std::vector<double> nsl;
       if (em.GetDisplayType() == TetrahedronEdgeModel::DisplayType::SCALAR)
       {
-- 
2.43.0


From 08c6b8d8d51dbfa08da12b86f2cf299a6a595359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 39/88] fix: write edge models with different display types in
 different regions to Tecplot

---
 src/meshing/TecplotWriter.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index e74635e..6689e40 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -272,8 +272,6 @@ void WriteEdgeBlockVector(std::ostream &myfile, const Region &reg, const std::st
   /// TODO: make sure it is the same type in each region
   if (emp)
   {
-    dsAssert(emp->GetDisplayType() == EdgeModel::DisplayType::VECTOR, "UNEXPECTED");
-
     const NodeVectorList<double> &values = emp->GetVectorValuesOnNodes<double>();
     dsAssert(values.size() > 0, "UNEXPECTED");
 
-- 
2.43.0


From 3424951238dc5c7cd89292d82253c875e368544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 40/88] fix: let the name and not the address decide which
 contact owns a shared node

---
 src/Geometry/Device.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/Device.cc b/src/Geometry/Device.cc
index cf248bd..5cc222e 100644
--- a/src/Geometry/Device.cc
+++ b/src/Geometry/Device.cc
@@ -114,10 +114,10 @@ void Device::AddContact(const ContactPtr &cp)
       warning_list[os.str()] += 1;
     }
 
-    //// Guarantee that vector is sorted based on pointer address
+    //// The order decides which contact owns a shared node, so it must not depend on addresses
     std::vector<ContactPtr> &cplist = coordinateIndexToContact[ci];
     cplist.push_back(cp);
-    std::sort(cplist.begin(), cplist.end());
+    std::sort(cplist.begin(), cplist.end(), [](const ContactPtr &a, const ContactPtr &b) { return a->GetName() < b->GetName(); });
   }
   if (!warning_list.empty())
   {
-- 
2.43.0


From f40e6ff7e54859368c0f558029284e0f99828aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 41/88] fix: apply a contact equation on nodes shared with a
 contact that lacks it

---
 src/Equation/ContactEquation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index dd4bd4c..02bf12a 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -137,7 +137,7 @@ ConstNodeList_t ContactEquation<DoubleType>::GetActiveNodes() const
           else
           {
 
-            const ContactEquationPtrMap_t &cepm = contact.GetEquationPtrList();
+            const ContactEquationPtrMap_t &cepm = ocontact.GetEquationPtrList();
 
             for (ContactEquationPtrMap_t::const_iterator cepmit = cepm.begin(); cepmit != cepm.end(); ++cepmit)
             {
-- 
2.43.0


From d3c7bbbadb0a7103b6972b62fdbdf1c6a588ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 42/88] fix: keep a row for every equation when a matrix is
 cleared

---
 src/math/CompressedMatrix.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index 4659d11..fffc1aa 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -476,11 +476,11 @@ void CompressedMatrix<DoubleType>::ClearMatrix()
   }
 
   OutOfBandEntries_Real.clear();
-  OutOfBandEntries_Real.resize(sz);
+  OutOfBandEntries_Real.resize(this->size());
   if (GetMatrixType() == MatrixType::COMPLEX)
   {
     OutOfBandEntries_Imag.clear();
-    OutOfBandEntries_Imag.resize(sz);
+    OutOfBandEntries_Imag.resize(this->size());
   }
 }
 
-- 
2.43.0


From daafc021047eafc14bef79125cbdaeece44acfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 43/88] fix: assemble edge_volume_model in equations without
 edge_model

---
 src/AutoEquation/ExprEquation.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/ExprEquation.cc b/src/AutoEquation/ExprEquation.cc
index daad619..16e7fce 100644
--- a/src/AutoEquation/ExprEquation.cc
+++ b/src/AutoEquation/ExprEquation.cc
@@ -51,10 +51,12 @@ void ExprEquation<DoubleType>::DerivedAssemble(dsMath::RealRowColValueVec<Double
         {
             model_cache->clear();
             Equation<DoubleType>::EdgeCoupleAssemble(edge_model_, m, v, w);
-            if (!edge_volume_model_.empty())
-            {
-              Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
-            }
+        }
+
+        if (!edge_volume_model_.empty())
+        {
+            model_cache->clear();
+            Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
         }
 
         if (!node_model_.empty())
-- 
2.43.0


From c334c4bb5920d54a2901e5d54c27596770a75602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 44/88] fix: add the circuit node derivative of contact
 currents once for each edge

---
 src/Equation/ContactEquation.cc | 126 ++++++++++++++++----------------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index 02bf12a..d0180f1 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -1558,48 +1558,48 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          EdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        EdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
+        const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
-          {
-            const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
 
-            for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          {
+            if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
             {
-              if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
-              {
-                continue;
-              }
+              continue;
+            }
 
-              const  size_t eind = (*it)->GetIndex();
-              const DoubleType val = edd[eind];
+            const  size_t eind = (*it)->GetIndex();
+            const DoubleType val = edd[eind];
 
-              if ((*it)->GetHead() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
-              }
-              else if ((*it)->GetTail() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
-              }
-              else
-              {
-                dsAssert(0, "UNEXPECTED");
-              }
+            if ((*it)->GetHead() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
+            }
+            else if ((*it)->GetTail() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
+            }
+            else
+            {
+              dsAssert(0, "UNEXPECTED");
             }
           }
         }
@@ -1809,45 +1809,45 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          TriangleEdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        TriangleEdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
+          for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
           {
-            const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
-            for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
+            const Triangle &triangle = **ti;
+            const size_t tindex = triangle.GetIndex();
+            const ConstEdgeList &edgeList = ttelist[tindex];
+            for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
             {
-              const Triangle &triangle = **ti;
-              const size_t tindex = triangle.GetIndex();
-              const ConstEdgeList &edgeList = ttelist[tindex];
-              for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
-              {
-                const Edge &edge = *edgeList[eindex];
+              const Edge &edge = *edgeList[eindex];
 
-                auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
+              auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
 
-                if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
-                {
-                  continue;
-                }
+              if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
+              {
+                continue;
+              }
 
-                const size_t vindex = 3 * tindex + eindex;
+              const size_t vindex = 3 * tindex + eindex;
 
-                val *= edd[vindex];
+              val *= edd[vindex];
 
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
-              }
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
             }
           }
         }
-- 
2.43.0


From 887067324ccd83b09cedf869fb1efd3334fb89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:17 +0000
Subject: [PATCH 45/88] fix: treat a circuit that has only ground nodes as no
 circuit

---
 src/Circuit/data/NodeKeeper.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 9f8847d..b7a7aa6 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -493,9 +493,17 @@ double NodeKeeper::GetRelError(const std::string &nm)
     return relError[nm];
 }
 
+// ground nodes have no equation
 bool NodeKeeper::HaveNodes()
 {
-    return NodeTable_.size() != 0;
+    for (const auto &entry : NodeTable_)
+    {
+        if (!entry.second->isGROUND())
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 bool NodeKeeper::IsCircuitNode(const std::string &name)
-- 
2.43.0


From 05549d73f6a20c8470ed313268dc2fba61cac2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 46/88] fix: do not let region models use values that were only
 evaluated on a contact

---
 src/AutoEquation/ModelExprEval.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index 21efb54..2f01faf 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -480,7 +480,8 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
     FPECheck::ClearFPE();
   }
 
-  if (cache_result && (out.GetType() != datatype::INVALID))
+  //// the values of contact models are only evaluated on the contact, and must not be used by other models
+  if (cache_result && indexes.empty() && (out.GetType() != datatype::INVALID))
   {
     cache->SetEntry(EngineAPI::getStringValue(arg), out);
   }
-- 
2.43.0


From c084a0ce0d2c6e1c5e30170b5a7d67f135293494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:29 +0000
Subject: [PATCH 47/88] fix: fix: report the node with the largest relative
 error of an equation

---
 src/Equation/Equation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index bde16dd..fd788f4 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -286,6 +286,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     DoubleType aerr = 0.0;
     DoubleType rerr = 0.0;
     size_t     aerr_node = 0;
+    size_t     rerr_node = 0;
 
     for (size_t i = 0; i < upds.size(); ++i)
     {
@@ -304,6 +305,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
         if (nrerror > rerr)
         {
             rerr = nrerror;
+            rerr_node = i;
         }
 
     }
@@ -311,7 +313,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     setAbsError(aerr);
     setRelError(rerr);
     setAbsErrorNodeIndex(aerr_node);
-    setRelErrorNodeIndex(aerr_node);
+    setRelErrorNodeIndex(rerr_node);
 //    dsErrors::EquationMathErrorInfo(*this, rerr, aerr, OutputStream::OutputType::INFO);
 }
 
-- 
2.43.0


From f77e8aed62f3789f7b998db871bd1acf6f2b6ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 48/88] fix: fix: an update which is not a number is not
 convergence

---
 src/Equation/Equation.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index fd788f4..0768a61 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -292,6 +292,16 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     {
         const DoubleType n1 = abs(upds[i]);
 
+        // an update which is not a number has to prevent convergence
+        if (n1 != n1)
+        {
+          aerr = n1;
+          rerr = n1;
+          aerr_node = i;
+          rerr_node = i;
+          break;
+        }
+
         if (n1 > aerr)
         {
           aerr = n1;
-- 
2.43.0


From 4edd933cdb89baea0bd0146a01a4c7fcc8890abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 49/88] fix: fix: restore the solutions when a solve ends with
 an exception

---
 src/math/Newton.cc | 30 ++++++++++++++++++++++++++----
 src/math/Newton.hh |  1 +
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index d603e65..ae769e9 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -445,6 +445,7 @@ void Newton<DoubleType>::RestoreSolutions()
     if (nk.HaveNodes())
     {
       nk.CopySolution("dcop_prev", "dcop");
+      nk.TriggerCallbacksOnNodes();
     }
   }
 }
@@ -615,8 +616,6 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
   MasterGILControl gil;
 
   NodeKeeper &nk = NodeKeeper::instance();
-  GlobalData &gdata = GlobalData::GetInstance();
-  const GlobalData::DeviceList_t      &dlist = gdata.GetDeviceList();
 
   const size_t numeqns = NumberEquationsAndSetDimension();
 
@@ -627,6 +626,31 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
   PrintNumberEquations(numeqns, ohm);
 
+  BackupSolutions();
+
+  bool converged = false;
+
+  try
+  {
+    converged = SolveFromBackup(itermethod, timeinfo, ohm, numeqns);
+  }
+  catch (...)
+  {
+    // the solutions may be partially updated
+    RestoreSolutions();
+    throw;
+  }
+
+  return converged;
+}
+
+template <typename DoubleType>
+bool Newton<DoubleType>::SolveFromBackup(LinearSolver<DoubleType> &itermethod, const TimeMethods::TimeParams<DoubleType> &timeinfo, ObjectHolderMap_t *ohm, size_t numeqns)
+{
+  NodeKeeper &nk = NodeKeeper::instance();
+  GlobalData &gdata = GlobalData::GetInstance();
+  const GlobalData::DeviceList_t      &dlist = gdata.GetDeviceList();
+
   std::unique_ptr<Preconditioner<DoubleType>> preconditioner;
 
   std::unique_ptr<Matrix<DoubleType>> matrix;
@@ -639,8 +663,6 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
   bool converged = false;
 
-  BackupSolutions();
-
   /////
   ///// Permutation vector
   /////
diff --git a/src/math/Newton.hh b/src/math/Newton.hh
index 373d500..117b37e 100644
--- a/src/math/Newton.hh
+++ b/src/math/Newton.hh
@@ -214,6 +214,7 @@ class Newton {
 
         size_t NumberEquationsAndSetDimension();
 
+        bool SolveFromBackup(LinearSolver<DoubleType> &, const TimeMethods::TimeParams<DoubleType> &, ObjectHolderMap_t *ohm, size_t numeqns);
         void BackupSolutions();
         void RestoreSolutions();
 
-- 
2.43.0


From b5a821bd7ed257ee8fdd309b469ccf7f98387aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 50/88] fix: fix: add_circuit_node uses its variable_update and
 value options

---
 src/Circuit/data/CircuitNode.hh |  7 +++++++
 src/Circuit/data/NodeKeeper.cc  | 18 +++++++++++++++++-
 src/commands/CircuitCommands.cc |  7 ++++---
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/Circuit/data/CircuitNode.hh b/src/Circuit/data/CircuitNode.hh
index cfd0ae0..bd10cf6 100644
--- a/src/Circuit/data/CircuitNode.hh
+++ b/src/Circuit/data/CircuitNode.hh
@@ -46,6 +46,12 @@ class CircuitNode {
         size_t GetNumber()
             {return nodeNumber_;}
 
+        void SetInitialValue(double v)
+            {initialValue_=v;}
+
+        double GetInitialValue() const
+            {return initialValue_;}
+
     private:
         friend class NodeKeeper;
         /* Modified Nodal Analysis */
@@ -63,6 +69,7 @@ class CircuitNode {
         size_t           nodeNumber_;
         CircuitNodeType nodeType_;
         CircuitUpdateType      updateType;
+        double                 initialValue_ = 0.0;
 };
 
 
diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index b7a7aa6..5141c02 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -267,8 +267,18 @@ void NodeKeeper::CreateSolution(const std::string &key)
 
     // technically this needs to be deleted in the destructor
     // migrate to smart pointer
-    // Should call initializer for each node (dc case only)
     Sol_[key] = new Solution(numberOfNodes_,0.0);
+    if (key == "dcop")
+    {
+        for (const auto &entry : NodeTable_)
+        {
+            if (!entry.second->isGROUND())
+            {
+                (*Sol_[key])[entry.second->GetNumber()] = entry.second->GetInitialValue();
+            }
+        }
+        TriggerCallbacksOnNodes();
+    }
     std::ostringstream os;
     os << "creating solution " << key << " with " << numberOfNodes_ << " nodes" << "\n";
     OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
@@ -340,6 +350,12 @@ void NodeKeeper::UpdateSolution(const std::string &key, const Solution &rhs)
         }
         else if (ut == CircuitUpdateType::POSITIVE)
         {
+            if (oval <= 0.0)
+            {
+                std::ostringstream os;
+                os << "Circuit node " << it->first << " with a positive variable update has the value " << oval << ".\n";
+                OutputStream::WriteOut(OutputStream::OutputType::FATAL, os.str());
+            }
             while ((upd + oval) <=  0.0)
             {
                 upd /= 2.0;
diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 6515afb..b9a1b86 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -42,14 +42,15 @@ void AddGroundNode()
     }
 }
 
-void CreateNode(const std::string &name, CircuitUpdateType ut)
+void CreateNode(const std::string &name, CircuitUpdateType ut, double initial_value = 0.0)
 {
     AddGroundNode();
 
     NodeKeeper &nk = NodeKeeper::instance();
     if (!nk.IsCircuitNode(name))
     {
-        nk.AddNode(name, CircuitNodeType::DEFAULT, ut);
+        CircuitNodePtr node = nk.AddNode(name, CircuitNodeType::DEFAULT, ut);
+        node->SetInitialValue(initial_value);
     }
 
 }
@@ -130,7 +131,7 @@ void addCircuitNodeCmd(CommandHandler &data)
     }
     else
     {
-        CreateNode(name, CircuitUpdateType::DEFAULT);
+        CreateNode(name, updateType, value);
         data.SetEmptyResult();
     }
 
-- 
2.43.0


From e0f3475a94cf12acf064dde1112bf6e1ecb63770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 51/88] fix: keep one transient history when extended_solver
 changes

---
 src/commands/MathCommands.cc |  2 +-
 src/main/ResetAllData.cc     |  3 ++-
 src/math/Newton.cc           |  8 ++++----
 src/math/TimeData.cc         | 40 +++++++++++++++++++++++++-----------
 src/math/TimeData.hh         | 12 +++++++----
 5 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/commands/MathCommands.cc b/src/commands/MathCommands.cc
index 8355648..14dcf9a 100644
--- a/src/commands/MathCommands.cc
+++ b/src/commands/MathCommands.cc
@@ -511,7 +511,7 @@ setInitialConditionCmd(CommandHandler &data)
   }
   else
   {
-    auto &tdata = TimeData<double>::GetInstance();
+    auto &tdata = TimeData<extended_type>::GetInstance();
     tdata.CopyI(TimePoint_t::TM1, TimePoint_t::TM2);
     tdata.CopyI(TimePoint_t::TM0, TimePoint_t::TM1);
     tdata.SetI(TimePoint_t::TM0, rhs_vectors[0]);
diff --git a/src/main/ResetAllData.cc b/src/main/ResetAllData.cc
index 734487c..102742f 100644
--- a/src/main/ResetAllData.cc
+++ b/src/main/ResetAllData.cc
@@ -26,9 +26,10 @@ void ResetAllData()
 #if defined(DEVSIM_EXTENDED_PRECISION)
     MathEval<float128>::DestroyInstance();
 #endif
-    TimeData<double>::DestroyInstance();
 #if defined(DEVSIM_EXTENDED_PRECISION)
     TimeData<float128>::DestroyInstance();
+#else
+    TimeData<double>::DestroyInstance();
 #endif
     GlobalData::DestroyInstance();
 }
diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index ae769e9..5b32037 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -1033,7 +1033,7 @@ void Newton<DoubleType>::PrintDeviceErrors(const Device &device, ObjectHolderMap
 template <typename DoubleType>
 void Newton<DoubleType>::InitializeTransientAssemble(const TimeMethods::TimeParams<DoubleType> &timeinfo, size_t numeqns, DoubleVec_t<DoubleType> &rhs_constant)
 {
-  TimeData<DoubleType> &tinst = TimeData<DoubleType>::GetInstance();
+  TimeData<extended_type> &tinst = TimeData<extended_type>::GetInstance();
   if (timeinfo.a1 != 0.0)
   {
     tinst.AssembleQ(TimePoint_t::TM0, timeinfo.a1, rhs_constant);
@@ -1061,10 +1061,10 @@ bool Newton<DoubleType>::CheckTransientProjection(const TimeMethods::TimeParams<
   /// need to make sure projection makes sense
   DoubleVec_t<DoubleType> projectQ(numeqns);
 
-  TimeData<DoubleType> &tinst = TimeData<DoubleType>::GetInstance();
+  TimeData<extended_type> &tinst = TimeData<extended_type>::GetInstance();
 
   tinst.AssembleI(TimePoint_t::TM0, - timeinfo.tdelta, projectQ);
-  tinst.AssembleQ(TimePoint_t::TM0, 1.0,    projectQ);
+  tinst.AssembleQ(TimePoint_t::TM0, static_cast<DoubleType>(1.0), projectQ);
 
   DoubleType qrel = 0.0;
   for (size_t i = 0; i < numeqns; ++i)
@@ -1099,7 +1099,7 @@ bool Newton<DoubleType>::CheckTransientProjection(const TimeMethods::TimeParams<
 template <typename DoubleType>
 void Newton<DoubleType>::UpdateTransientCurrent(const TimeMethods::TimeParams<DoubleType> &timeinfo, size_t numeqns, const DoubleVec_t<DoubleType> &newI, const DoubleVec_t<DoubleType> &newQ)
 {
-  TimeData<DoubleType> &tinst = TimeData<DoubleType>::GetInstance();
+  TimeData<extended_type> &tinst = TimeData<extended_type>::GetInstance();
   if (timeinfo.IsDCMethod())
   {
     //// There is no displacement current for a dc solution
diff --git a/src/math/TimeData.cc b/src/math/TimeData.cc
index a3563ee..5fb0227 100644
--- a/src/math/TimeData.cc
+++ b/src/math/TimeData.cc
@@ -8,8 +8,10 @@ SPDX-License-Identifier: Apache-2.0
 #include "TimeData.hh"
 #include "dsAssert.hh"
 
+#ifndef DEVSIM_EXTENDED_PRECISION
 template <>
 TimeData<double> *TimeData<double>::instance = 0;
+#endif
 
 #ifdef DEVSIM_EXTENDED_PRECISION
 #include "Float128.hh"
@@ -45,15 +47,17 @@ void TimeData<DoubleType>::DestroyInstance()
 }
 
 template <typename DoubleType>
-void TimeData<DoubleType>::SetI(TimePoint_t tp, const std::vector<DoubleType> &v)
+template <typename T>
+void TimeData<DoubleType>::SetI(TimePoint_t tp, const std::vector<T> &v)
 {
-  IData[static_cast<size_t>(tp)] = v;
+  IData[static_cast<size_t>(tp)].assign(v.begin(), v.end());
 }
 
 template <typename DoubleType>
-void TimeData<DoubleType>::SetQ(TimePoint_t tp, const std::vector<DoubleType> &v)
+template <typename T>
+void TimeData<DoubleType>::SetQ(TimePoint_t tp, const std::vector<T> &v)
 {
-  QData[static_cast<size_t>(tp)] = v;
+  QData[static_cast<size_t>(tp)].assign(v.begin(), v.end());
 }
 
 template <typename DoubleType>
@@ -81,7 +85,8 @@ void TimeData<DoubleType>::ClearQ(TimePoint_t tp)
 }
 
 template <typename DoubleType>
-void TimeData<DoubleType>::AssembleI(TimePoint_t tp, DoubleType scale, std::vector<DoubleType> &v)
+template <typename T>
+void TimeData<DoubleType>::AssembleI(TimePoint_t tp, T scale, std::vector<T> &v)
 {
   dsAssert(!IData[static_cast<size_t>(tp)].empty(),            "UNEXPECTED missing time data");
   dsAssert( IData[static_cast<size_t>(tp)].size() == v.size(), "UNEXPECTED time data mismatch");
@@ -90,12 +95,13 @@ void TimeData<DoubleType>::AssembleI(TimePoint_t tp, DoubleType scale, std::vect
 
   for (size_t i = 0; i < v.size(); ++i)
   {
-    v[i] += scale * data[i];
+    v[i] += scale * static_cast<T>(data[i]);
   }
 }
 
 template <typename DoubleType>
-void TimeData<DoubleType>::AssembleQ(TimePoint_t tp, DoubleType scale, std::vector<DoubleType> &v)
+template <typename T>
+void TimeData<DoubleType>::AssembleQ(TimePoint_t tp, T scale, std::vector<T> &v)
 {
   dsAssert(!QData[static_cast<size_t>(tp)].empty(),            "UNEXPECTED missing time data");
   dsAssert( QData[static_cast<size_t>(tp)].size() == v.size(), "UNEXPECTED time data mismatch");
@@ -104,14 +110,24 @@ void TimeData<DoubleType>::AssembleQ(TimePoint_t tp, DoubleType scale, std::vect
 
   for (size_t i = 0; i < v.size(); ++i)
   {
-    v[i] += scale * data[i];
+    v[i] += scale * static_cast<T>(data[i]);
   }
 }
 
-template class TimeData<double>;
-
 #ifdef DEVSIM_EXTENDED_PRECISION
 template class TimeData<float128>;
+template void TimeData<float128>::SetI(TimePoint_t, const std::vector<double> &);
+template void TimeData<float128>::AssembleI(TimePoint_t, double, std::vector<double> &);
+template void TimeData<float128>::SetQ(TimePoint_t, const std::vector<double> &);
+template void TimeData<float128>::AssembleQ(TimePoint_t, double, std::vector<double> &);
+template void TimeData<float128>::SetI(TimePoint_t, const std::vector<float128> &);
+template void TimeData<float128>::AssembleI(TimePoint_t, float128, std::vector<float128> &);
+template void TimeData<float128>::SetQ(TimePoint_t, const std::vector<float128> &);
+template void TimeData<float128>::AssembleQ(TimePoint_t, float128, std::vector<float128> &);
+#else
+template class TimeData<double>;
+template void TimeData<double>::SetI(TimePoint_t, const std::vector<double> &);
+template void TimeData<double>::AssembleI(TimePoint_t, double, std::vector<double> &);
+template void TimeData<double>::SetQ(TimePoint_t, const std::vector<double> &);
+template void TimeData<double>::AssembleQ(TimePoint_t, double, std::vector<double> &);
 #endif
-
-
diff --git a/src/math/TimeData.hh b/src/math/TimeData.hh
index 28756b9..3ad6522 100644
--- a/src/math/TimeData.hh
+++ b/src/math/TimeData.hh
@@ -19,8 +19,10 @@ class TimeData
         static TimeData &GetInstance();
         static void DestroyInstance();
 
-        void SetI(TimePoint_t, const std::vector<DoubleType> &);
-        void SetQ(TimePoint_t, const std::vector<DoubleType> &);
+        template <typename T>
+        void SetI(TimePoint_t, const std::vector<T> &);
+        template <typename T>
+        void SetQ(TimePoint_t, const std::vector<T> &);
 
         //// from -> to
         void CopyI(TimePoint_t, TimePoint_t);
@@ -29,8 +31,10 @@ class TimeData
         void ClearI(TimePoint_t);
         void ClearQ(TimePoint_t);
 
-        void AssembleI(TimePoint_t, DoubleType, std::vector<DoubleType> &);
-        void AssembleQ(TimePoint_t, DoubleType, std::vector<DoubleType> &);
+        template <typename T>
+        void AssembleI(TimePoint_t, T, std::vector<T> &);
+        template <typename T>
+        void AssembleQ(TimePoint_t, T, std::vector<T> &);
 
         bool ExistsI(TimePoint_t tp)
         {
-- 
2.43.0


From 2a4c3c674fb0960a7e81ff913b3d3a8a1e8ad4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:26 +0000
Subject: [PATCH 52/88] fix: noise fields of equations which are copied into
 another row

---
 src/Equation/Equation.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index 0768a61..d0a2be9 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -417,13 +417,19 @@ void Equation<DoubleType>::DefaultNoiseUpdate(const std::string &outputname, con
     const ConstNodeList::const_iterator nend = nl.end();
     for ( ; nit != nend; ++nit)
     {
-        // TODO: we need to make sure we handle when the equation was copied, KeepCopy() == true
-        const size_t eqrow = permvec[myregion->GetEquationNumber(ind, *nit)].GetRow();
+        const size_t eqnum = myregion->GetEquationNumber(ind, *nit);
+        const PermutationEntry &perm = permvec[eqnum];
+        const size_t eqrow = perm.GetRow();
 
         if (eqrow != size_t(-1))
         {
           const size_t eqindex = (*nit)->GetIndex();
-          const dsMath::ComplexDouble_t<DoubleType> &upd  = result[eqrow];
+          dsMath::ComplexDouble_t<DoubleType> upd  = result[eqrow];
+          // the equation is in its own row and in the row it was copied to
+          if (perm.KeepCopy() && (eqrow != eqnum))
+          {
+            upd += result[eqnum];
+          }
           realout[eqindex] = upd.real();
           imagout[eqindex] = upd.imag();
         }
-- 
2.43.0


From 8bca80cb6d07a5b3219bc62a7fc3d9db43e44905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:33 +0000
Subject: [PATCH 53/88] fix: block preconditioner indexed its block list with
 -1 for circuit rows

---
 src/math/BlockPreconditioner.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/math/BlockPreconditioner.cc b/src/math/BlockPreconditioner.cc
index f308227..c7059b7 100644
--- a/src/math/BlockPreconditioner.cc
+++ b/src/math/BlockPreconditioner.cc
@@ -149,7 +149,13 @@ void BlockPreconditioner<DoubleType>::ProcessBlockInfo(const IntVec_t &Cols, con
       const T v = Vals[ri];
 
       const size_t rbindex = equationNumberToBlockMap_[r];
-      if (rbindex == cbindex)
+      if (rbindex == size_t(-1))
+      {
+        //// rows which are not in any region, such as those of the circuit
+        block_matrix_->AddEntry(r, c, v);
+        ++outofrange;
+      }
+      else if (rbindex == cbindex)
       {
 #if 0
         if (r == c)
-- 
2.43.0


From 7e6c033a0b1a7c3b150cc88e354e1f78fb372e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:38 +0000
Subject: [PATCH 54/88] fix: results of a Python solver which are not a
 dictionary were ignored

---
 src/math/ExternalPreconditioner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/ExternalPreconditioner.cc b/src/math/ExternalPreconditioner.cc
index 47daa32..43c0ddb 100644
--- a/src/math/ExternalPreconditioner.cc
+++ b/src/math/ExternalPreconditioner.cc
@@ -274,6 +274,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(DoubleVec_t<DoubleType>
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
@@ -334,6 +335,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(ComplexDoubleVec_t<Doubl
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
-- 
2.43.0


From edd05b478481d6a16d3ed5822fdaf08a1ae663ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 55/88] fix: connect circuit elements to the node behind an
 alias

---
 src/Circuit/data/NodeKeeper.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 5141c02..d3fc309 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -61,6 +61,12 @@ CircuitNodePtr NodeKeeper::AddNode(const std::string & name, CircuitNodeType nt,
     }
 
 
+    // the name may refer to an existing node
+    if (NodeAliasTable_.count(name))
+    {
+        return NodeTable_[NodeAliasTable_[name]];
+    }
+
     if (NodeTable_.count(name))
     {
 /*
-- 
2.43.0


From 9389bd51121651873324a638b80062eb372d3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 56/88] fix: check the name of a circuit element before its
 nodes are created

---
 src/commands/CircuitCommands.cc | 35 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index b9a1b86..59b765f 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -200,6 +200,27 @@ circuitElementCmd(CommandHandler &data)
         }
     }
 
+    if (std::string("VvIiCcLlRr").find(type) == std::string::npos)
+    {
+        std::ostringstream os;
+        os << "Cannot figure out what element type -name  \"" << name <<
+              "\" is\n";
+        errorString += os.str();
+    }
+    else if (InstanceKeeper::instance().getInstanceModel(name))
+    {
+        std::ostringstream os;
+        os << "Circuit element -name  \"" << name <<
+              "\" already exists\n";
+        errorString += os.str();
+    }
+
+    if (!errorString.empty())
+    {
+        data.SetErrorResult(errorString);
+        return;
+    }
+
     //// Should not fail
     CreateNode(n1, CircuitUpdateType::DEFAULT);
     CreateNode(n2, CircuitUpdateType::DEFAULT);
@@ -243,20 +264,6 @@ circuitElementCmd(CommandHandler &data)
         ik.addInstanceModel(im);
         data.SetEmptyResult();
     }
-    else
-    {
-        std::ostringstream os;
-        os << "Cannot figure out what element type -name  \"" << name <<
-              "\" is\n";
-        errorString += os.str();
-    }
-
-    if (!errorString.empty())
-    {
-        data.SetErrorResult(errorString);
-        return;
-    }
-
 }
 
 void
-- 
2.43.0


From 96060941a10caad6553beb3451bdd967e5a5a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:03 +0000
Subject: [PATCH 57/88] fix: stop after option errors of circuit commands

---
 src/commands/CircuitCommands.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 59b765f..8b3ef30 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -389,6 +389,7 @@ circuitNodeAliasCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -445,6 +446,7 @@ void circuitGetCircuitNodeListCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -486,6 +488,7 @@ void circuitGetCircuitSolutionListCmd (CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -519,6 +522,7 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -580,6 +584,7 @@ circuitDeleteCircuitCmd(CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   InstanceKeeper::delete_instance();
@@ -604,6 +609,7 @@ circuitGetCircuitEquationNumberCmd (CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   // const std::string commandName = data.GetCommandName();
-- 
2.43.0


From a3ef13024418a044dc0cc83870189ab1fc4310d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 58/88] fix: delete_circuit reported an error although it
 worked

---
 src/commands/CircuitCommands.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 8b3ef30..28a9354 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -589,6 +589,7 @@ circuitDeleteCircuitCmd(CommandHandler &data)
 
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
+  data.SetEmptyResult();
 };
 
 void
-- 
2.43.0


From cadbabadf8cc9e5844f0065fa9dd097c9e056b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 59/88] fix: no crash when a companion of a geometry model is
 replaced

---
 src/GeomModels/CylindricalEdgeNodeVolume.cc   |  5 +-
 src/GeomModels/InterfaceNormal.cc             | 15 ++++-
 src/GeomModels/NodePosition.cc                | 20 ++++--
 src/GeomModels/SurfaceArea.cc                 | 65 +++++++++++++++----
 .../TriangleCylindricalNodeVolume.cc          |  5 +-
 src/GeomModels/UnitVec.cc                     | 10 ++-
 src/GeomModels/VectorGradient.cc              | 15 ++++-
 7 files changed, 108 insertions(+), 27 deletions(-)

diff --git a/src/GeomModels/CylindricalEdgeNodeVolume.cc b/src/GeomModels/CylindricalEdgeNodeVolume.cc
index 8666b64..3ca4686 100644
--- a/src/GeomModels/CylindricalEdgeNodeVolume.cc
+++ b/src/GeomModels/CylindricalEdgeNodeVolume.cc
@@ -57,7 +57,10 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
     const EdgeScalarList<DoubleType> &nv1 = eec1->GetValuesOnEdges<DoubleType>();
 
     SetValues(nv0);
-    node1Volume_.lock()->SetValues(nv1);
+    if (auto m = node1Volume_.lock())
+    {
+      m->SetValues(nv1);
+    }
 
   }
   else
diff --git a/src/GeomModels/InterfaceNormal.cc b/src/GeomModels/InterfaceNormal.cc
index 25d6c58..c4b093f 100644
--- a/src/GeomModels/InterfaceNormal.cc
+++ b/src/GeomModels/InterfaceNormal.cc
@@ -180,7 +180,10 @@ void InterfaceNormal<DoubleType>::calcEdgeScalarValues() const {
     {
       esl[i] = normals[i].Getx();
     }
-    normal_x.lock()->SetValues(esl);
+    if (auto m = normal_x.lock())
+    {
+      m->SetValues(esl);
+    }
   }
   if (!normal_y.expired())
   {
@@ -188,7 +191,10 @@ void InterfaceNormal<DoubleType>::calcEdgeScalarValues() const {
     {
       esl[i] = normals[i].Gety();
     }
-    normal_y.lock()->SetValues(esl);
+    if (auto m = normal_y.lock())
+    {
+      m->SetValues(esl);
+    }
   }
   if (!normal_z.expired())
   {
@@ -196,7 +202,10 @@ void InterfaceNormal<DoubleType>::calcEdgeScalarValues() const {
     {
       esl[i] = normals[i].Getz();
     }
-    normal_z.lock()->SetValues(esl);
+    if (auto m = normal_z.lock())
+    {
+      m->SetValues(esl);
+    }
   }
 
 }
diff --git a/src/GeomModels/NodePosition.cc b/src/GeomModels/NodePosition.cc
index 47a69d3..332d45f 100644
--- a/src/GeomModels/NodePosition.cc
+++ b/src/GeomModels/NodePosition.cc
@@ -52,10 +52,22 @@ void NodePosition<DoubleType>::calcNodeScalarValues() const
         ci[i] = nl[i]->GetCoordinate().GetIndex();
     }
     SetValues(nx);
-    yposition.lock()->SetValues(ny);
-    zposition.lock()->SetValues(nz);
-    node_index.lock()->SetValues(ni);
-    coordinate_index.lock()->SetValues(ci);
+    if (auto m = yposition.lock())
+    {
+      m->SetValues(ny);
+    }
+    if (auto m = zposition.lock())
+    {
+      m->SetValues(nz);
+    }
+    if (auto m = node_index.lock())
+    {
+      m->SetValues(ni);
+    }
+    if (auto m = coordinate_index.lock())
+    {
+      m->SetValues(ci);
+    }
 }
 
 template <typename DoubleType>
diff --git a/src/GeomModels/SurfaceArea.cc b/src/GeomModels/SurfaceArea.cc
index c7fef90..aa18ebd 100644
--- a/src/GeomModels/SurfaceArea.cc
+++ b/src/GeomModels/SurfaceArea.cc
@@ -107,7 +107,10 @@ void SurfaceArea<DoubleType>::calcSurfaceArea1d() const
     }
     SetValues(nv);
     dsAssert(!contact_area.expired(), "UNEXPECTED");
-    contact_area.lock()->SetValues(ca);
+    if (auto m = contact_area.lock())
+    {
+      m->SetValues(ca);
+    }
 }
 
 template <typename DoubleType>
@@ -187,10 +190,19 @@ void SurfaceArea<DoubleType>::calcSurfaceArea2d() const
 
     SurfaceAreaUtil::processEdgeList(contact_edge_list, unitx, unity, edgeLengths, nv, nvx, nvy);
 
-    contact_area.lock()->SetValues(nv);
+    if (auto m = contact_area.lock())
+    {
+      m->SetValues(nv);
+    }
 
-    ncontact_x.lock()->SetValues(nvx);
-    ncontact_y.lock()->SetValues(nvy);
+    if (auto m = ncontact_x.lock())
+    {
+      m->SetValues(nvx);
+    }
+    if (auto m = ncontact_y.lock())
+    {
+      m->SetValues(nvy);
+    }
   }
   {
     //// This is the net surface area for the vector
@@ -202,8 +214,14 @@ void SurfaceArea<DoubleType>::calcSurfaceArea2d() const
     SurfaceAreaUtil::processEdgeList(interface_edge_list, unitx, unity, edgeLengths, nv, nvx, nvy);
 
     SetValues(nv);
-    nsurf_x.lock()->SetValues(nvx);
-    nsurf_y.lock()->SetValues(nvy);
+    if (auto m = nsurf_x.lock())
+    {
+      m->SetValues(nvx);
+    }
+    if (auto m = nsurf_y.lock())
+    {
+      m->SetValues(nvy);
+    }
   }
 }
 
@@ -276,11 +294,23 @@ void SurfaceArea<DoubleType>::calcSurfaceArea3d() const
 
     SurfaceAreaUtil::processTriangleList(contact_triangle_list, triangleCenters, nv, nvx, nvy, nvz);
 
-    contact_area.lock()->SetValues(nv);
+    if (auto m = contact_area.lock())
+    {
+      m->SetValues(nv);
+    }
     
-    ncontact_x.lock()->SetValues(nvx);
-    ncontact_y.lock()->SetValues(nvy);
-    ncontact_z.lock()->SetValues(nvz);
+    if (auto m = ncontact_x.lock())
+    {
+      m->SetValues(nvx);
+    }
+    if (auto m = ncontact_y.lock())
+    {
+      m->SetValues(nvy);
+    }
+    if (auto m = ncontact_z.lock())
+    {
+      m->SetValues(nvz);
+    }
   }
 
   {
@@ -295,9 +325,18 @@ void SurfaceArea<DoubleType>::calcSurfaceArea3d() const
 
     SetValues(nv);
 
-    nsurf_x.lock()->SetValues(nvx);
-    nsurf_y.lock()->SetValues(nvy);
-    nsurf_z.lock()->SetValues(nvz);
+    if (auto m = nsurf_x.lock())
+    {
+      m->SetValues(nvx);
+    }
+    if (auto m = nsurf_y.lock())
+    {
+      m->SetValues(nvy);
+    }
+    if (auto m = nsurf_z.lock())
+    {
+      m->SetValues(nvz);
+    }
   }
 }
 
diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index cb8d00b..d0d2d10 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -106,7 +106,10 @@ void TriangleCylindricalNodeVolume<DoubleType>::calcTriangleEdgeScalarValues() c
   }
 
   SetValues(ev0);
-  node1Volume_.lock()->SetValues(ev1);
+  if (auto m = node1Volume_.lock())
+  {
+    m->SetValues(ev1);
+  }
 }
 
 //// TODO: detect when radii crosses z axis before swept
diff --git a/src/GeomModels/UnitVec.cc b/src/GeomModels/UnitVec.cc
index a5ea542..1f84798 100644
--- a/src/GeomModels/UnitVec.cc
+++ b/src/GeomModels/UnitVec.cc
@@ -59,11 +59,17 @@ void UnitVec<DoubleType>::calcEdgeScalarValues() const
   SetValues(ux);
   if (!unity.expired())
   {
-    unity.lock()->SetValues(uy);
+    if (auto m = unity.lock())
+    {
+      m->SetValues(uy);
+    }
   }
   if (!unitz.expired())
   {
-    unitz.lock()->SetValues(uz);
+    if (auto m = unitz.lock())
+    {
+      m->SetValues(uz);
+    }
   }
 }
 
diff --git a/src/GeomModels/VectorGradient.cc b/src/GeomModels/VectorGradient.cc
index 4bc4736..bc805d6 100644
--- a/src/GeomModels/VectorGradient.cc
+++ b/src/GeomModels/VectorGradient.cc
@@ -187,7 +187,10 @@ void VectorGradient<DoubleType>::calc2d() const
   }
 
   SetValues(vx);
-  yfield_.lock()->SetValues(vy);
+  if (auto m = yfield_.lock())
+  {
+    m->SetValues(vy);
+  }
 }
 
 template <typename DoubleType>
@@ -259,8 +262,14 @@ void VectorGradient<DoubleType>::calc3d() const
   }
 
   SetValues(vx);
-  yfield_.lock()->SetValues(vy);
-  zfield_.lock()->SetValues(vz);
+  if (auto m = yfield_.lock())
+  {
+    m->SetValues(vy);
+  }
+  if (auto m = zfield_.lock())
+  {
+    m->SetValues(vz);
+  }
 }
 
 template <typename DoubleType>
-- 
2.43.0


From d1d7d1b069e908b871609e0478c3709a58abd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 60/88] fix: element field matrices are kept only when complete

---
 src/Geometry/TetrahedronElementField.cc | 13 ++++++++++---
 src/Geometry/TriangleElementField.cc    | 11 +++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/Geometry/TetrahedronElementField.cc b/src/Geometry/TetrahedronElementField.cc
index 4ef5122..e5d77d3 100644
--- a/src/Geometry/TetrahedronElementField.cc
+++ b/src/Geometry/TetrahedronElementField.cc
@@ -92,7 +92,8 @@ void TetrahedronElementField<DoubleType>::CalcMatrices() const
   const Region::TetrahedronToConstEdgeDataList_t &ttelist = myregion_->GetTetrahedronToEdgeDataList();
 
   ///// Need to handle 01, 02, 12 combinations
-  dense_mats_.resize(tetrahedronList.size());
+  //// only kept when every element has its matrices
+  dense_matrix_vec_t dense_mats(tetrahedronList.size());
 
   for (size_t tindex = 0; tindex < tetrahedronList.size(); ++tindex)
   {
@@ -141,14 +142,20 @@ void TetrahedronElementField<DoubleType>::CalcMatrices() const
       }
 
       bool info = M.LUFactor();
+      if (!info)
+      {
+        delete dmp;
+      }
       dsAssert(info, "UNEXPECTED");
-      dense_mats_[tindex].mats[i] = dmp;
+      dense_mats[tindex].mats[i] = dmp;
       for (size_t m = 0; m < 3; ++m)
       {
-        dense_mats_[tindex].edgeIndexes[i][m] = edgeIndexes[m];
+        dense_mats[tindex].edgeIndexes[i][m] = edgeIndexes[m];
       }
     }
   }
+
+  dense_mats_.swap(dense_mats);
 }
 
 template <typename DoubleType>
diff --git a/src/Geometry/TriangleElementField.cc b/src/Geometry/TriangleElementField.cc
index 535991a..8d19d7b 100644
--- a/src/Geometry/TriangleElementField.cc
+++ b/src/Geometry/TriangleElementField.cc
@@ -91,7 +91,8 @@ void TriangleElementField<DoubleType>::CalcMatrices() const
   const Region::TriangleToConstEdgeList_t &ttelist = myregion_->GetTriangleToEdgeList();
 
   ///// Need to handle 01, 02, 12 combinations
-  dense_mats_.resize(ttelist.size());
+  //// only kept when every element has its matrices
+  dense_matrix_vec_t dense_mats(ttelist.size());
 
   for (size_t tindex = 0; tindex < ttelist.size(); ++tindex)
   {
@@ -122,11 +123,17 @@ void TriangleElementField<DoubleType>::CalcMatrices() const
       M(1, 1) = sy[r1];
 
       bool info = M.LUFactor();
+      if (!info)
+      {
+        delete dmp;
+      }
       dsAssert(info, "UNEXPECTED");
 
-      dense_mats_[tindex].mats[i] = dmp;
+      dense_mats[tindex].mats[i] = dmp;
     }
   }
+
+  dense_mats_.swap(dense_mats);
 }
 
 template <typename DoubleType>
-- 
2.43.0


From 615382174a9cde1e1dded1a8e881071abb1673e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 61/88] fix: a device with floating point exceptions is not
 created

---
 src/meshing/Mesh.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/meshing/Mesh.cc b/src/meshing/Mesh.cc
index f6c842f..8eec69b 100644
--- a/src/meshing/Mesh.cc
+++ b/src/meshing/Mesh.cc
@@ -6,6 +6,7 @@ SPDX-License-Identifier: Apache-2.0
 ***/
 
 #include "Mesh.hh"
+#include "FPECheck.hh"
 #include "GlobalData.hh"
 #include <sstream>
 namespace dsMesh {
@@ -61,6 +62,13 @@ bool Mesh::Instantiate(const std::string &name, std::string &errorString)
         throw;
     }
 
+    //// The command fails, for example for an element without any size
+    if (ret && FPECheck::CheckFPE())
+    {
+        ret = false;
+        errorString += "There was a floating point exception of type \"" + FPECheck::getFPEString() + "\" while creating the device " + name + "\n";
+    }
+
     if (!ret && !exists)
     {
         gdata.DeleteDevice(name);
-- 
2.43.0


From 805aa3869c76c16081c4873b645fad4134eee51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 62/88] fix: malformed Gmsh meshes are rejected

---
 src/meshing/GmshLoader.cc | 102 +++++++++++++++++++++++++++++++++++++-
 src/meshing/GmshReader.cc |  29 ++++++++---
 src/meshing/GmshScanner.l |  47 +++++++++++++++---
 3 files changed, 162 insertions(+), 16 deletions(-)

diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index 6d0ec95..db52a90 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -21,6 +21,8 @@ SPDX-License-Identifier: Apache-2.0
 #include "ModelCreate.hh"
 #include "MeshLoaderUtility.hh"
 
+#include <algorithm>
+#include <map>
 #include <sstream>
 
 namespace dsMesh {
@@ -262,7 +264,7 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
   std::map<std::string, std::vector<NodePtr> > RegionNameToNodeMap;
 
   //// For each name in the region map, we create a list of nodes which are indexes
-  [this, &RegionNameToNodeMap, dp, &coordinate_list]()
+  [this, &RegionNameToNodeMap, dp, &coordinate_list, &ret]()
   {
     MeshNodeList_t        mesh_nodes;
     MeshTetrahedronList_t mesh_tetrahedra;
@@ -335,6 +337,14 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         region.AddTriangleList(triangleList);
       }
       GetUniqueEdgesFromPhysicalNames(pnames, mesh_edges);
+      if (((dimension == 3) && mesh_tetrahedra.empty()) || ((dimension == 2) && mesh_triangles.empty()) || mesh_edges.empty())
+      {
+        std::ostringstream os;
+        os << "Region " << regionName << " does not have any elements of dimension " << dimension << ".\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+        ret = false;
+        continue;
+      }
       processEdges(mesh_edges, nodeList, edgeList);
       region.AddEdgeList(edgeList);
       region.FinalizeMesh();
@@ -342,6 +352,18 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
     }
   }();
 
+  if (regionMap.empty())
+  {
+    errorString += "There are no regions on the mesh " + this->GetName() + "\n";
+    ret = false;
+  }
+
+  if (!ret)
+  {
+    errorString += "Check log for errors.\n";
+    return ret;
+  }
+
   //// Now process the contact
   [this, &RegionNameToNodeMap, dp, &ret](){
     MeshNodeList_t mesh_nodes;
@@ -456,6 +478,12 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         continue;
       }
 
+      // nodes not on the region have been reported
+      if (cnodes.size() != mesh_nodes.size())
+      {
+        continue;
+      }
+
       // All of our contact nodes should exist
       ConstNodePtr mesh_edge_nodes[2];
       for (MeshEdgeList_t::const_iterator tnit = mesh_edges.begin(); tnit != mesh_edges.end(); ++tnit)
@@ -641,6 +669,12 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         continue;
       }
 
+      // nodes not on both regions have been reported
+      if (inodes[0].size() != mesh_nodes.size())
+      {
+        continue;
+      }
+
       // All of our contact nodes should exist
       ConstNodePtr mesh_edge_nodes[2];
       for (MeshEdgeList_t::const_iterator tnit = mesh_edges.begin(); tnit != mesh_edges.end(); ++tnit)
@@ -710,6 +744,10 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
   //// finalize device and region
   //// create the nodes
   //// create the edges
+  if (!ret)
+  {
+    errorString += "Check log for errors.\n";
+  }
   return ret;
 }
 
@@ -721,6 +759,24 @@ bool GmshLoader::Finalize_(std::string &errorString)
   /// for each element, we must put it into the appropriate region
   /// Mesh coordinates are over the entire device
 
+  /// The node numbers may have arbitrary gaps, so that they are made consecutive
+  std::map<size_t, size_t> coordinateNumbers;
+  for (const auto &coordinate : meshCoordinateList)
+  {
+    coordinateNumbers[coordinate.first] = 0;
+  }
+  {
+    size_t number = 0;
+    for (auto &coordinateNumber : coordinateNumbers)
+    {
+      coordinateNumber.second = number;
+      ++number;
+    }
+  }
+
+  gmshShapesMap.clear();
+  dimension = 0;
+
   for (size_t i = 0; i < elementList.size(); ++i)
   {
     const GmshElement &elem = elementList[i];
@@ -742,7 +798,36 @@ bool GmshLoader::Finalize_(std::string &errorString)
       physicalName = os.str();
     }
 
-    gmshShapesMap[physicalName].AddShape(element_type, elem.node_indexes);
+    Shapes::NodeIndexes_t node_indexes;
+    for (const auto index : elem.node_indexes)
+    {
+      const auto cit = coordinateNumbers.find(index);
+      if (cit == coordinateNumbers.end())
+      {
+        ret = false;
+        std::ostringstream os;
+        os << "Element " << elem.element_index << " references coordinate " << index << " which does not exist.\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+      }
+      else if (std::find(node_indexes.begin(), node_indexes.end(), static_cast<int>(cit->second)) != node_indexes.end())
+      {
+        ret = false;
+        std::ostringstream os;
+        os << "Element " << elem.element_index << " references coordinate " << index << " more than once.\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+      }
+      else
+      {
+        node_indexes.push_back(static_cast<int>(cit->second));
+      }
+    }
+
+    if (node_indexes.size() != elem.node_indexes.size())
+    {
+      continue;
+    }
+
+    gmshShapesMap[physicalName].AddShape(element_type, node_indexes);
   }
 
 
@@ -773,9 +858,22 @@ bool GmshLoader::Finalize_(std::string &errorString)
     }
   }
 
+  if (ret && (dimension == 0))
+  {
+    ret = false;
+    std::ostringstream os;
+    os << "There are no elements of dimension 1, 2, or 3 on the mesh " << this->GetName() << ".\n";
+    OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+  }
+
   errorString += "Check log for errors.\n";
   if (ret)
   {
+      for (auto &coordinate : meshCoordinateList)
+      {
+        coordinate.first = coordinateNumbers[coordinate.first];
+      }
+      maxCoordinateIndex = coordinateNumbers.size() - 1;
       this->SetFinalized();
   }
   return ret;
diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index 47e217a..40c57e3 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -8,6 +8,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "GmshReader.hh"
 #include "GmshLoader.hh"
 #include "MeshKeeper.hh"
+#include <memory>
 #include <sstream>
 
 namespace dsGmshParse {
@@ -24,9 +25,8 @@ void DeletePointers()
 
 bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &coordinates, const std::vector<std::string> &physical_names, const std::vector<size_t> &elements, std::string &errorString)
 {
-  dsMesh::GmshLoaderPtr gmshLoaderp = new dsMesh::GmshLoader(meshName);
-  dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-  mk.AddMesh(gmshLoaderp);
+  /// The mesh is only kept when there are no errors
+  auto gmshLoaderp = std::make_unique<dsMesh::GmshLoader>(meshName);
 
   dsMesh::GmshLoader &gmshLoader = *gmshLoaderp;
 
@@ -51,7 +51,9 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
   std::map<size_t, size_t> physical_dimensions;
   for (eeindex = 0; eeindex < element_vec_len;)
   {
-    dsMesh::Shapes::ElementType_t element_type = static_cast<dsMesh::Shapes::ElementType_t>(elements[eeindex]);
+    const dsMesh::Shapes::ElementType_t element_type =
+      (elements[eeindex] <= static_cast<size_t>(dsMesh::Shapes::ElementType_t::TETRAHEDRON)) ?
+        static_cast<dsMesh::Shapes::ElementType_t>(elements[eeindex]) : dsMesh::Shapes::ElementType_t::UNKNOWN;
     switch (element_type)
     {
       case dsMesh::Shapes::ElementType_t::POINT:
@@ -79,11 +81,11 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
     if (nodes_to_get == 0)
     {
       std::ostringstream os;
-      os << "ERROR: element " << static_cast<size_t>(element_type) << " unrecognized type position " << eeindex << "\n";
+      os << "ERROR: element " << elements[eeindex] << " unrecognized type position " << eeindex << "\n";
       errorString = os.str();
       return false;
     }
-    else if ((eeindex + nodes_to_get + 1) > element_vec_len)
+    else if ((eeindex + nodes_to_get + 2) > element_vec_len)
     {
       std::ostringstream os;
       os << "ERROR: element list indexing error on element " << element_count << "\n";
@@ -93,7 +95,7 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
 
     size_t physical_number = elements[eeindex + 1];
 
-    if (physical_number > physical_names.size())
+    if (physical_number >= physical_names.size())
     {
       std::ostringstream os;
       os << "ERROR: element physical index " << physical_number << " must be less than number of physical_names " << physical_names.size() <<  " on element " << element_count << " on position " << eeindex + 1 << "\n";
@@ -116,7 +118,15 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
 
     for (size_t i = 0; i < nodes_to_get; ++i)
     {
-      node_indexes[i] = elements[eeindex + i + 2];
+      const size_t node_index = elements[eeindex + i + 2];
+      if (node_index >= num_coords)
+      {
+        std::ostringstream os;
+        os << "ERROR: element node index " << node_index << " must be less than number of coordinates " << num_coords <<  " on element " << element_count << " on position " << eeindex + i + 2 << "\n";
+        errorString = os.str();
+        return false;
+      }
+      node_indexes[i] = node_index;
     }
 
     gmshLoader.AddElement(dsMesh::GmshElement(element_count, physical_number, element_type, node_indexes));
@@ -150,6 +160,9 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
     }
   }
 
+  dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
+  mk.AddMesh(gmshLoaderp.release());
+
   return true;
 }
 }
diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index 182cc5c..279ad64 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -17,6 +17,10 @@ SPDX-License-Identifier: Apache-2.0
 #endif
 // remove clang compiler warning
 #define register
+#include "dsAssert.hh"
+#include "dsException.hh"
+// scanner errors must not end the program
+#define YY_FATAL_ERROR(msg) dsAssert(false, msg)
 %}
 %option noyywrap
 %option nounput
@@ -110,12 +114,13 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 		return WORD;
 	    }
 
-<*>.   {return yytext[0];}
+<*>.   {/* zero and negative tokens would end the file */ const int c = static_cast<unsigned char>(yytext[0]); return c ? c : 1;}
 %%
 
 int Gmshparse();
 #include "GmshLoader.hh"
 #include "MeshKeeper.hh"
+#include "FPECheck.hh"
 namespace dsGmshParse {
 bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, std::string &errorString)
 {
@@ -134,8 +139,6 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
     else
     {
       dsGmshParse::GmshLoader = new dsMesh::GmshLoader(meshName);
-      dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-      mk.AddMesh(dsGmshParse::GmshLoader);
     }
 
     Gmshin = fopen(fname.c_str(), "r");
@@ -150,9 +153,32 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
     }
     else
     {
-        Gmsh_switch_to_buffer(Gmsh_create_buffer( Gmshin, YY_BUF_SIZE ) );
-	retval = Gmshparse();
-	yy_delete_buffer( YY_CURRENT_BUFFER );
+        FILE *file = Gmshin;
+        try
+        {
+          Gmsh_switch_to_buffer(Gmsh_create_buffer( file, YY_BUF_SIZE ) );
+          retval = Gmshparse();
+          if ((retval == 0) && (YY_START != INITIAL))
+          {
+            retval = 1;
+            dsGmshParse::errors += "Unexpected end of file in a section\n";
+          }
+          if ((retval == 0) && FPECheck::CheckFPE())
+          {
+            FPECheck::ClearFPE();
+            retval = 1;
+            dsGmshParse::errors += "There is a number out of range\n";
+          }
+        }
+        catch (dsException &x)
+        {
+          retval = 1;
+          dsGmshParse::errors += x.what();
+          dsGmshParse::errors += "\n";
+        }
+        // also resets the section the scanner is in
+        Gmshlex_destroy();
+        fclose(file);
     }
 
 
@@ -160,6 +186,15 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
 
     dsGmshParse::DeletePointers();
     errorString += dsGmshParse::errors;
+    if (ret)
+    {
+      dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
+      mk.AddMesh(dsGmshParse::GmshLoader);
+    }
+    else
+    {
+      delete dsGmshParse::GmshLoader;
+    }
     dsGmshParse::GmshLoader = NULL;
     return ret;
 }
-- 
2.43.0


From 2dc45aa0442fdb605ec48b453478ff1ccf067c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 63/88] fix: malformed native mesh files are rejected

---
 src/meshing/DevsimLoader.cc | 147 ++++++++++++++++++++++++++++++++----
 src/meshing/DevsimParser.y  |  27 ++++++-
 src/meshing/DevsimReader.cc |   3 +
 src/meshing/DevsimReader.hh |   3 +
 src/meshing/DevsimScanner.l |  60 ++++++++++++++-
 5 files changed, 218 insertions(+), 22 deletions(-)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index 66e229f..496d36e 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -25,6 +25,8 @@ SPDX-License-Identifier: Apache-2.0
 #include "EquationFunctions.hh"
 #include "dsAssert.hh"
 #include "Interpreter.hh"
+#include <array>
+#include <set>
 #include <sstream>
 
 namespace dsMesh {
@@ -235,6 +237,39 @@ void createRegion(const MeshRegion &mr, Device *dp, std::vector<const Node *> &n
 
 bool DevsimLoader::RunCommand(const std::string &commandString, const std::vector<std::pair<std::string, ObjectHolder> > &commandArgs, std::string &resultString)
 {
+  /// Only the commands for models and equations on this device can be in the file
+  static const std::set<std::string> allowed = {
+    "contact_edge_model", "contact_equation", "contact_node_model", "cylindrical_edge_couple", "cylindrical_node_volume",
+    "cylindrical_surface_area", "edge_average_model", "edge_from_node_model", "edge_model", "element_from_edge_model",
+    "element_from_node_model", "element_model", "element_pair_from_edge_model", "equation", "interface_equation",
+    "interface_model", "interface_normal_model", "node_model", "vector_element_model", "vector_gradient"
+  };
+
+  if (!allowed.count(commandString))
+  {
+    resultString = "command \"" + commandString + "\" cannot be used in a device file";
+    return false;
+  }
+
+  bool has_device = false;
+  for (const auto &arg : commandArgs)
+  {
+    if (arg.first == "device")
+    {
+      if (arg.second.GetString() != GetName())
+      {
+        resultString = "command must be for device \"" + GetName() + "\"";
+        return false;
+      }
+      has_device = true;
+    }
+  }
+  if (!has_device)
+  {
+    resultString = "command must be for device \"" + GetName() + "\"";
+    return false;
+  }
+
   Interpreter MyInterp;
   bool ret = MyInterp.RunInternalCommand(commandString, commandArgs);
 
@@ -363,10 +398,6 @@ void FixNodePairs(MeshInterface &mint, ConstNodeList &cn0, ConstNodeList &cn1)
     {
       (*jt).second.second = (*it)->GetIndex();
     }
-    else
-    {
-      mmap.erase(jt);
-    }
   }
 
   for (std::map<size_t, std::pair<size_t, size_t> >::iterator it = mmap.begin(); it != mmap.end(); ++it)
@@ -565,13 +596,16 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       const ConstNodeList_t &nl0 = node_map[rname0];
       const ConstNodeList_t &nl1 = node_map[rname1];
 
-      MeshInterface::NodePairList_t mnp = mint.GetNodePairs();
+      const MeshInterface::NodePairList_t &mnp = mint.GetNodePairs();
 
       if (mnp.empty())
       {
         GetNodes(mint.GetMeshRegion0(), rp0, cn0);
         GetNodes(mint.GetMeshRegion1(), rp1, cn1);
         FixNodePairs(mint, cn0, cn1);
+        //// these get created from the pairs
+        cn0.clear();
+        cn1.clear();
       }
 
       if (!mnp.empty())
@@ -611,6 +645,14 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       GetEdges(mint.GetMeshRegion0(), rp0, ce0);
       GetEdges(mint.GetMeshRegion1(), rp1, ce1);
 
+      if ((ct0.size() != ct1.size()) || (ce0.size() != ce1.size()))
+      {
+        ret = false;
+        std::ostringstream os;
+        os << "Interface " << iname << " has edges or triangles which are not on both regions " << rname0 << " and " << rname1 << "\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+      }
+
       if (!ret)
       {
         break;
@@ -825,9 +867,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
 //        os << "Execute: " << sol.GetCommandName() << "\n";
         {
           std::string resultString;
-          ret = RunCommand(sol.GetCommandName(), sol.GetCommandArgs(), resultString);
-          if (!ret)
+          const bool command_ret = RunCommand(sol.GetCommandName(), sol.GetCommandArgs(), resultString);
+          if (!command_ret)
           {
+            ret = false;
             errorString += "While executing: " + sol.GetCommandName() + "\n" + resultString + "\n";
             OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
           }
@@ -843,9 +886,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       const Equation &equation   = *(eit->second);
       {
         std::string resultString;
-        ret = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
-        if (!ret)
+        const bool command_ret = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
+        if (!command_ret)
         {
+          ret = false;
           errorString += "While executing: " + equation.GetCommandName() + "\n" + resultString + "\n";
           OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
         }
@@ -874,6 +918,7 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
         std::ostringstream os;
         //// TODO: do command here!
         os << "Unable to create interface model: " << sname << "\n";
+        ret = false;
         errorString += os.str();
         OutputStream::WriteOut(OutputStream::OutputType::FATAL, os.str());
       }
@@ -906,9 +951,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
 
         {
           std::string resultString;
-          ret = RunCommand(sol.GetCommandName(), sol.GetCommandArgs(), resultString);
-          if (!ret)
+          const bool command_ret = RunCommand(sol.GetCommandName(), sol.GetCommandArgs(), resultString);
+          if (!command_ret)
           {
+            ret = false;
             errorString += "While executing: " + sol.GetCommandName() + "\n" + resultString + "\n";
             OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
           }
@@ -922,9 +968,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       const Equation &equation   = *(eit->second);
       {
         std::string resultString;
-        ret = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
-        if (!ret)
+        const bool command_ret = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
+        if (!command_ret)
         {
+          ret = false;
           errorString += "While executing: " + equation.GetCommandName() + "\n" + resultString + "\n";
           OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
         }
@@ -941,9 +988,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       const Equation &equation   = *(eit->second);
       {
         std::string resultString;
-        ret = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
-        if (!ret)
+        const bool command_ret = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
+        if (!command_ret)
         {
+          ret = false;
           errorString += "While executing: " + equation.GetCommandName() + "\n" + resultString + "\n";
           OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
         }
@@ -958,6 +1006,50 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
   return ret;
 }
 
+namespace {
+/// The nodes of an element are distinct, and its edges and triangles are in the region
+bool CheckElements(const MeshRegion &region)
+{
+  std::set<std::pair<size_t, size_t> > edges;
+  for (const auto &edge : region.GetEdges())
+  {
+    //// nodes are sorted in each of these
+    if (edge.Index0() == edge.Index1())
+    {
+      return false;
+    }
+    edges.insert(std::make_pair(edge.Index0(), edge.Index1()));
+  }
+
+  std::set<std::array<size_t, 3> > triangles;
+  for (const auto &triangle : region.GetTriangles())
+  {
+    const size_t i0 = triangle.Index0();
+    const size_t i1 = triangle.Index1();
+    const size_t i2 = triangle.Index2();
+    if (!edges.count({i0, i1}) || !edges.count({i0, i2}) || !edges.count({i1, i2}))
+    {
+      return false;
+    }
+    triangles.insert({i0, i1, i2});
+  }
+
+  for (const auto &tetrahedron : region.GetTetrahedra())
+  {
+    const size_t i0 = tetrahedron.Index0();
+    const size_t i1 = tetrahedron.Index1();
+    const size_t i2 = tetrahedron.Index2();
+    const size_t i3 = tetrahedron.Index3();
+    if (!triangles.count({i0, i1, i2}) || !triangles.count({i0, i1, i3}) || !triangles.count({i0, i2, i3}) || !triangles.count({i1, i2, i3}))
+    {
+      return false;
+    }
+  }
+
+  return true;
+}
+}
+
 ///// This function should mostly just do error checking
 bool DevsimLoader::Finalize_(std::string &errorString)
 {
@@ -1116,6 +1208,31 @@ bool DevsimLoader::Finalize_(std::string &errorString)
         }
       }
 
+      if (region.HasTetrahedra())
+      {
+        for (const auto &tetrahedron : region.GetTetrahedra())
+        {
+          for (const size_t index : {tetrahedron.Index0(), tetrahedron.Index1(), tetrahedron.Index2(), tetrahedron.Index3()})
+          {
+            if (index >= nnodes)
+            {
+              ret = false;
+              std::ostringstream os;
+              os << "Node index " << index << " in region " << rname << " for tetrahedra exceeds the max node index, " << (nnodes - 1) << "\n";
+              OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+            }
+          }
+        }
+      }
+
+      if (!CheckElements(region))
+      {
+        ret = false;
+        std::ostringstream os;
+        os << "Region " << rname << " has elements with repeated nodes, or with missing edges or triangles\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+      }
+
       if (region.HasTriangles())
       {
         const MeshTriangleList_t &nl = region.GetTriangles();
diff --git a/src/meshing/DevsimParser.y b/src/meshing/DevsimParser.y
index 1821327..18daa63 100644
--- a/src/meshing/DevsimParser.y
+++ b/src/meshing/DevsimParser.y
@@ -9,6 +9,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Devsimyystype.hh"
 #include "DevsimReader.hh"
 #include "DevsimLoader.hh"
+#include "GlobalData.hh"
 #include "MeshKeeper.hh"
 #include "OutputStream.hh"
 #include <sstream>
@@ -71,11 +72,19 @@ begin_devicecmd : BEG_DEVICE WORD  {
         Devsimerror(os.str().c_str());
         YYABORT;
     }
+    else if (GlobalData::GetInstance().GetDevice($2))
+    {
+        std::ostringstream os;
+        os << "ERROR: a device already exists by the name " << $2 << "\n";
+        Devsimerror(os.str().c_str());
+        YYABORT;
+    }
     else
     {
         dsDevsimParse::DevsimLoader = new dsMesh::DevsimLoader($2);
         dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
         mk.AddMesh(dsDevsimParse::DevsimLoader);
+        dsDevsimParse::LoadedDevices.push_back($2);
     }
 }
 ;
@@ -145,7 +154,7 @@ region : BEG_REGION WORD WORD  {
             if (!dsDevsimParse::MeshRegion)
             {
                 std::ostringstream os;
-                os << "ERROR: No region to end " << dsDevsimParse::MeshRegion->GetName() << "\n";
+                os << "ERROR: No region to end\n";
                 Devsimerror(os.str().c_str());
                 YYABORT;
             }
@@ -525,7 +534,7 @@ contact : BEG_CONTACT WORD WORD WORD  {
             if (!dsDevsimParse::MeshContact)
             {
                 std::ostringstream os;
-                os << "ERROR: No contact to end " << dsDevsimParse::MeshContact->GetName() << "\n";
+                os << "ERROR: No contact to end\n";
                 Devsimerror(os.str().c_str());
                 YYABORT;
             }
@@ -564,7 +573,7 @@ interface : BEG_INTERFACE WORD WORD WORD  {
             if (!dsDevsimParse::MeshInterface)
             {
                 std::ostringstream os;
-                os << "ERROR: No interface to end " << dsDevsimParse::MeshContact->GetName() << "\n";
+                os << "ERROR: No interface to end\n";
                 Devsimerror(os.str().c_str());
                 YYABORT;
             }
@@ -605,6 +614,11 @@ nodesol : BEG_NODESOL WORD  {
             }
         } |
         nodesol number  {
+            if (!dsDevsimParse::Sol)
+            {
+                Devsimerror("ERROR: value after the end of a solution\n");
+                YYABORT;
+            }
             dsDevsimParse::Sol->AddValue($2);
         } |
         nodesol END_NODESOL  {
@@ -915,12 +929,14 @@ edgesol : BEG_EDGESOL WORD  {
                 std::ostringstream os;
                 os << "ERROR: Solution is currently being loaded " << dsDevsimParse::Sol->GetName() << "\n";
                 Devsimerror(os.str().c_str());
+                YYABORT;
             }
             else if (dsDevsimParse::MeshRegion->IsSolution($2))
             {
                 std::ostringstream os;
                 os << "ERROR: Solution already loaded " << $2 << "\n";
                 Devsimerror(os.str().c_str());
+                YYABORT;
             }
             else
             {
@@ -931,6 +947,11 @@ edgesol : BEG_EDGESOL WORD  {
             }
         } |
         edgesol number  {
+            if (!dsDevsimParse::Sol)
+            {
+                Devsimerror("ERROR: value after the end of a solution\n");
+                YYABORT;
+            }
             dsDevsimParse::Sol->AddValue($2);
         } |
         edgesol END_EDGESOL  {
diff --git a/src/meshing/DevsimReader.cc b/src/meshing/DevsimReader.cc
index d0f7927..a3421b4 100644
--- a/src/meshing/DevsimReader.cc
+++ b/src/meshing/DevsimReader.cc
@@ -17,6 +17,7 @@ dsMesh::MeshInterfacePtr MeshInterface;
 dsMesh::SolutionPtr      Sol;
 dsMesh::EquationPtr      Equation;
 std::string errors;
+std::vector<std::string> LoadedDevices;
 }
 
 namespace dsDevsimParse
@@ -28,6 +29,8 @@ void DeletePointers()
     MeshInterface.reset();
     Sol.reset();
     Equation.reset();
+    //// the mesh is owned by MeshKeeper
+    DevsimLoader = nullptr;
 }
 }
 
diff --git a/src/meshing/DevsimReader.hh b/src/meshing/DevsimReader.hh
index 6256264..f997da3 100644
--- a/src/meshing/DevsimReader.hh
+++ b/src/meshing/DevsimReader.hh
@@ -9,6 +9,7 @@ SPDX-License-Identifier: Apache-2.0
 #define DEVSIM_READER_HH
 #include "MeshLoaderStructs.hh"
 #include <string>
+#include <vector>
 #include <cstddef>
 
 //TODO: ensure stack size can trigger realloc
@@ -27,6 +28,8 @@ extern dsMesh::MeshInterfacePtr MeshInterface;
 extern dsMesh::SolutionPtr      Sol;
 extern dsMesh::EquationPtr      Equation;
 extern std::string errors;
+/// devices of the file being loaded
+extern std::vector<std::string> LoadedDevices;
 
 void DeletePointers();
 
diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index 004ac56..a8b0a12 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -17,6 +17,10 @@ SPDX-License-Identifier: Apache-2.0
 #endif
 // remove clang compiler warning
 #define register
+#include "dsAssert.hh"
+#include "dsException.hh"
+// scanner errors must not end the program
+#define YY_FATAL_ERROR(msg) dsAssert(false, msg)
 %}
 %option noyywrap
 %option nounput
@@ -307,10 +311,14 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
               return WORD;
            }
 
-<*>.   {return yytext[0];}
+<*>.   {/* zero and negative tokens would end the file */ const int c = static_cast<unsigned char>(yytext[0]); return c ? c : 1;}
 %%
 
 int Devsimparse();
+#include "GlobalData.hh"
+#include "MeshKeeper.hh"
+#include "FPECheck.hh"
+#include "DevsimLoader.hh"
 
 namespace dsDevsimParse {
 bool LoadMeshes(const std::string &fname, std::string &errorString)
@@ -319,6 +327,9 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
     dsDevsimParse::errors.clear();
     dsDevsimParse::meshlineno = 1;
 
+    dsDevsimParse::LoadedDevices.clear();
+    dsDevsimParse::DeletePointers();
+
     Devsimin = fopen(fname.c_str(), "r");
 
     int retval = 1;
@@ -331,11 +342,52 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
     }
     else
     {
-        Devsim_switch_to_buffer(Devsim_create_buffer( Devsimin, YY_BUF_SIZE ) );
-        retval = Devsimparse();
-        yy_delete_buffer( YY_CURRENT_BUFFER );
+        FILE *file = Devsimin;
+        try
+        {
+          Devsim_switch_to_buffer(Devsim_create_buffer( file, YY_BUF_SIZE ) );
+          retval = Devsimparse();
+          if (retval == 0)
+          {
+            if (YY_START != INITIAL)
+            {
+              retval = 1;
+              dsDevsimParse::errors += "Unexpected end of file in a section\n";
+            }
+            else if (dsDevsimParse::LoadedDevices.empty())
+            {
+              retval = 1;
+              dsDevsimParse::errors += "There are no devices in file " + fname + "\n";
+            }
+          }
+          if ((retval == 0) && FPECheck::CheckFPE())
+          {
+            FPECheck::ClearFPE();
+            retval = 1;
+            dsDevsimParse::errors += "There is a number out of range\n";
+          }
+        }
+        catch (dsException &x)
+        {
+          retval = 1;
+          dsDevsimParse::errors += x.what();
+          dsDevsimParse::errors += "\n";
+        }
+        // also resets the section the scanner is in
+        Devsimlex_destroy();
+        fclose(file);
     }
 
+    // nothing is kept from a file with errors
+    if (retval)
+    {
+      for (const auto &name : dsDevsimParse::LoadedDevices)
+      {
+        GlobalData::GetInstance().DeleteDevice(name);
+        dsMesh::MeshKeeper::GetInstance().DeleteMesh(name);
+      }
+    }
+    dsDevsimParse::LoadedDevices.clear();
 
     ret = !retval;
 
-- 
2.43.0


From 6d404b5b8e4b82e1db45f3ca0b9b252d023d2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:54 +0000
Subject: [PATCH 64/88] fix: repeated contact and interface nodes in native
 files are errors

---
 src/meshing/DevsimLoader.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index 496d36e..d3f7184 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -513,12 +513,23 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       ConstNodeList_t &nl = node_map[rname];
 
       const MeshNodeList_t &mcl = cnt.GetNodes();
+      std::set<size_t> used_nodes;
       for (MeshNodeList_t::const_iterator cit = mcl.begin(); cit != mcl.end(); ++cit)
       {
         size_t index = cit->Index();
         if (index < nl.size())
         {
-          cnl.push_back(nl[index]);
+          if (used_nodes.insert(index).second)
+          {
+            cnl.push_back(nl[index]);
+          }
+          else
+          {
+            ret = false;
+            std::ostringstream os;
+            os << "Node index " << index << " for contact " << cname << " is repeated\n";
+            OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+          }
         }
         else
         {
@@ -614,6 +625,7 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
         os << "Interface " << iname << " " << rname0 << " " << rname1 << " has " << mnp.size() << " node pairs" << "\n";
         OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
 
+        std::set<std::pair<size_t, size_t>> used_pairs;
         for (MeshInterface::NodePairList_t::const_iterator iit = mnp.begin(); iit != mnp.end(); ++iit)
         {
           size_t index0 = iit->Index0();
@@ -632,6 +644,13 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
             os << "Node index " << index1 << " for interface " << iname << " violates bounds for region " << rname1 << "\n";
             OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
           }
+          else if (!used_pairs.insert(std::make_pair(index0, index1)).second)
+          {
+            ret = false;
+            std::ostringstream os;
+            os << "Node indexes " << index0 << " " << index1 << " for interface " << iname << " are repeated\n";
+            OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+          }
           else
           {
             cn0.push_back(nl0[index0]);
-- 
2.43.0


From 54da76ac8a6f1ff1c786e09ea543f5c0d1ad9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:54 +0000
Subject: [PATCH 65/88] fix: check values that come from Python

---
 src/pythonapi/ObjectHolder.cc | 88 +++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 15 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 27ce406..5d72d69 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -9,6 +9,7 @@ SPDX-License-Identifier: Apache-2.0
 /// Python is insisting on defined _POSIX_C_SOURCE and _X_OPEN_SOURCE
 #include "Python.h"
 #include "dsAssert.hh"
+#include "dsException.hh"
 #include "ControlGIL.hh"
 #include "dsMathTypes.hh"
 #include <cassert>
@@ -129,12 +130,18 @@ std::string GetStringFromStringObject(PyObject *obj)
   if (PyUnicode_CheckExact(obj))
   {
     PyObject *sobj = PyUnicode_AsUTF8String(obj);
-    ret = PyBytes_AsString(sobj);
+    if (!sobj)
+    {
+      // this string cannot be encoded
+      PyErr_Clear();
+      throw dsException("String is not valid Unicode text\n");
+    }
+    ret.assign(PyBytes_AsString(sobj), PyBytes_Size(sobj));
     Py_DECREF(sobj);
   }
   else if (PyBytes_CheckExact(obj))
   {
-    ret = PyBytes_AsString(obj);
+    ret.assign(PyBytes_AsString(obj), PyBytes_Size(obj));
   }
   return ret;
 }
@@ -154,8 +161,13 @@ std::string ObjectHolder::GetString() const
     if (ret.empty())
     {
       PyObject *strobj = PyObject_Str(obj);
+      if (!strobj)
+      {
+        PyErr_Clear();
+        throw dsException("Value cannot be converted to a string\n");
+      }
+      ObjectHolder holder(strobj);
       ret = GetStringFromStringObject(strobj);
-      Py_DECREF(strobj);
     }
   }
   return ret;
@@ -207,6 +219,10 @@ ObjectHolder::BooleanEntry_t ObjectHolder::GetBoolean() const
       ok  = true;
       val = (ret == 1);
     }
+    else
+    {
+      PyErr_Clear();
+    }
   }
 
   return std::make_pair(ok, val);
@@ -217,7 +233,7 @@ ObjectHolder::IntegerEntry_t ObjectHolder::GetInteger() const
 {
   EnsurePythonGIL gil;
 
-  bool   ok = true;
+  bool   ok = false;
   int    val= 0;
 
   ObjectHolder::LongEntry_t lent = this->GetLong();
@@ -230,10 +246,6 @@ ObjectHolder::IntegerEntry_t ObjectHolder::GetInteger() const
       ok = true;
       val = ret;
     }
-    else
-    {
-      ok = false;
-    }
   }
   return std::make_pair(ok, val);
 }
@@ -251,8 +263,9 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
     PyObject *obj = reinterpret_cast<PyObject *>(object_);
     if (PyLong_CheckExact(obj))
     {
-      ok = true;
-      val = PyLong_AsLong(obj);
+      val = PyLong_AsSsize_t(obj);
+      ok = !PyErr_Occurred();
+      PyErr_Clear();
     }
     else if (PyUnicode_CheckExact(obj) || PyBytes_CheckExact(obj))
     {
@@ -264,13 +277,24 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
       {
         if ((*p) == 0)
         {
-          ok = true;
-          val = PyLong_AsLong(iobj);
+          val = PyLong_AsSsize_t(iobj);
+          ok = !PyErr_Occurred();
         }
         Py_DECREF(iobj);
       }
       PyErr_Clear();
     }
+    else if (PyIndex_Check(obj))
+    {
+      // other integer types, such as those from numpy
+      if (PyObject *iobj = PyNumber_Index(obj))
+      {
+        val = PyLong_AsSsize_t(iobj);
+        ok = !PyErr_Occurred();
+        Py_DECREF(iobj);
+      }
+      PyErr_Clear();
+    }
   }
   return std::make_pair(ok, val);
 }
@@ -317,13 +341,25 @@ bool ObjectHolder::GetListOfObjects(ObjectHolderList_t &objs) const
   PyObject *obj = reinterpret_cast<PyObject *>(object_);
   if (obj && PySequence_Check(obj))
   {
+    const Py_ssize_t len = PySequence_Size(obj);
+    if (len < 0)
+    {
+      PyErr_Clear();
+      return false;
+    }
     ok = true;
-    size_t len = PySequence_Size(obj);
     objs.resize(len);
-    for (size_t i = 0; i < len; ++i)
+    for (Py_ssize_t i = 0; i < len; ++i)
     {
       //// this is a new reference
       PyObject *lobj = PySequence_GetItem(obj, i);
+      if (!lobj)
+      {
+        PyErr_Clear();
+        objs.clear();
+        ok = false;
+        break;
+      }
       //Py_INCREF(lobj);
       objs[i] = ObjectHolder(lobj);
     }
@@ -431,6 +467,28 @@ void GetArrayInfo(const ObjectHolder &input, std::string &typecode, long &itemsi
         ObjectHolder obj_typecode(PyObject_GetAttrString(obj, "typecode"));
         typecode = obj_typecode.GetString();
       }
+      else if (PyObject_HasAttrString(obj, "dtype"))
+      {
+        // the type of a numpy array
+        ObjectHolder obj_dtype(PyObject_GetAttrString(obj, "dtype"));
+        typecode = "?";
+        PyObject *dtype = reinterpret_cast<PyObject *>(obj_dtype.GetObject());
+        if (PyObject_HasAttrString(dtype, "char") && PyObject_HasAttrString(dtype, "isnative"))
+        {
+          ObjectHolder obj_char(PyObject_GetAttrString(dtype, "char"));
+          ObjectHolder obj_native(PyObject_GetAttrString(dtype, "isnative"));
+          if (obj_native.GetBoolean().second)
+          {
+            typecode = obj_char.GetString();
+          }
+        }
+      }
+      else if (PyObject_HasAttrString(obj, "format"))
+      {
+        // the type of a memoryview
+        ObjectHolder obj_format(PyObject_GetAttrString(obj, "format"));
+        typecode = obj_format.GetString();
+      }
 
       if (PyObject_HasAttrString(obj, "itemsize"))
       {
@@ -457,7 +515,7 @@ void GetBytesAsVector(ObjectHolder &bytes, std::vector<T> &result)
 
   int r = PyBytes_AsStringAndSize(reinterpret_cast<PyObject *>(bytes.GetObject()), &data, &length);
   PyErr_Clear();
-  if ((r != -1) && length > 0)
+  if ((r != -1) && (length > 0) && (length % sizeof(T) == 0))
   {
     const size_t n = length / sizeof(T);
     result.resize(n);
-- 
2.43.0


From 6d1aa0edcf50b8123ffde9532504c8559344a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:32 +0000
Subject: [PATCH 66/88] fix: numbers out of range in mesh files are errors

---
 src/meshing/DevsimScanner.l | 17 ++++++++---------
 src/meshing/GmshScanner.l   | 12 +++---------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index a8b0a12..74f9fc9 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -9,6 +9,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Devsimyystype.hh"
 #include "DevsimReader.hh"
 #include "DevsimParser.hh"
+#include <cmath>
 #include <sstream>
 #define YY_NO_UNPUT
 #ifdef _WIN32
@@ -55,9 +56,14 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 <*>[\n] {++dsDevsimParse::meshlineno;}
 
-<*>{float1}|{float2}|{float3}    {Devsimlval.dval = atof(yytext); return FLOAT;}
+<*>{float1}|{float2}|{float3}    {Devsimlval.dval = atof(yytext); return std::isfinite(Devsimlval.dval) ? FLOAT : 1; /* out of range */}
 
-<*>{integer}   {Devsimlval.dval = atof(yytext); Devsimlval.ival = atof(yytext); return INT;}
+<*>{integer}   {
+                Devsimlval.dval = atof(yytext);
+                /// an integer out of range is not a valid index
+                Devsimlval.ival = ((Devsimlval.dval > -2147483648.0) && (Devsimlval.dval < 2147483648.0)) ? static_cast<int>(Devsimlval.dval) : -1;
+                return std::isfinite(Devsimlval.dval) ? INT : 1;
+            }
 
 <INITIAL>^begin_device {
                 yy_push_state(DEVICE_SEC);
@@ -317,7 +323,6 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 int Devsimparse();
 #include "GlobalData.hh"
 #include "MeshKeeper.hh"
-#include "FPECheck.hh"
 #include "DevsimLoader.hh"
 
 namespace dsDevsimParse {
@@ -360,12 +365,6 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
               dsDevsimParse::errors += "There are no devices in file " + fname + "\n";
             }
           }
-          if ((retval == 0) && FPECheck::CheckFPE())
-          {
-            FPECheck::ClearFPE();
-            retval = 1;
-            dsDevsimParse::errors += "There is a number out of range\n";
-          }
         }
         catch (dsException &x)
         {
diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index 279ad64..af17743 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -9,6 +9,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Gmshyystype.hh"
 #include "GmshReader.hh"
 #include "GmshParser.hh"
+#include <cmath>
 #include <sstream>
 #define YY_NO_UNPUT
 #ifdef _WIN32
@@ -46,13 +47,13 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 <*>[\n]	{++dsGmshParse::meshlineno; return EOL;}
 
-<NODES_SEC>{float1}|{float2}|{float3}    {Gmshlval.dval = atof(yytext); return FLOAT;}
+<NODES_SEC>{float1}|{float2}|{float3}    {Gmshlval.dval = atof(yytext); return std::isfinite(Gmshlval.dval) ? FLOAT : 1; /* out of range */}
 
 <PHYSICALNAMES_SEC,NODES_SEC,ELEMENTS_SEC>{integer}   {
 		Gmshlval.dval = atof(yytext);
 		/// an integer out of range is not a valid index, but may be a coordinate
 		Gmshlval.ival = ((Gmshlval.dval > -2147483648.0) && (Gmshlval.dval < 2147483648.0)) ? static_cast<int>(Gmshlval.dval) : -1;
-		return INT;
+		return std::isfinite(Gmshlval.dval) ? INT : 1;
 	    }
 
 <INITIAL>^\$MeshFormat {
@@ -120,7 +121,6 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 int Gmshparse();
 #include "GmshLoader.hh"
 #include "MeshKeeper.hh"
-#include "FPECheck.hh"
 namespace dsGmshParse {
 bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, std::string &errorString)
 {
@@ -163,12 +163,6 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
             retval = 1;
             dsGmshParse::errors += "Unexpected end of file in a section\n";
           }
-          if ((retval == 0) && FPECheck::CheckFPE())
-          {
-            FPECheck::ClearFPE();
-            retval = 1;
-            dsGmshParse::errors += "There is a number out of range\n";
-          }
         }
         catch (dsException &x)
         {
-- 
2.43.0


From ca0036b313354feddd22f0f6d1d94bc4024bdedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 67/88] fix: an option with an empty name is an error

---
 src/pythonapi/GetArgs.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pythonapi/GetArgs.cc b/src/pythonapi/GetArgs.cc
index 0041302..0a5f292 100644
--- a/src/pythonapi/GetArgs.cc
+++ b/src/pythonapi/GetArgs.cc
@@ -30,7 +30,13 @@ bool GetArgs::processOptions(CommandInfo &tdata, std::string &error)
   for (ObjectHolderMap_t::iterator it = hashmap.begin(); it != hashmap.end(); ++it)
   {
     const std::string &optname = it->first;
-    if (!optname.empty())
+    if (optname.empty())
+    {
+      error = "an empty name is an invalid option\n";
+      status = true;
+      break;
+    }
+    else
     {
       if (optionMap.count(optname))
       {
-- 
2.43.0


From 0e74dda7ceb28950700cba0ee708f71e3df6ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 68/88] fix: check box bounds and the device before a mesh
 command has effects

---
 src/commands/CheckFunctions.cc  | 18 ++++++++++++++
 src/commands/CheckFunctions.hh  |  1 +
 src/commands/MeshingCommands.cc | 42 +++++++++++++++++++++------------
 3 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/src/commands/CheckFunctions.cc b/src/commands/CheckFunctions.cc
index fd8f347..b226f15 100644
--- a/src/commands/CheckFunctions.cc
+++ b/src/commands/CheckFunctions.cc
@@ -50,6 +50,24 @@ bool mustBeFinite(const std::string &optionName, std::string &errorString, const
 }
 
 
+bool mustNotBeNaN(const std::string &optionName, std::string &errorString, const CommandHandler &args)
+{
+    bool ret = true;
+
+    const double dval = args.GetDoubleOption(optionName);
+
+    if (std::isnan(dval))
+    {
+        std::ostringstream os;
+        os << "-" << optionName << " must be a number\n";
+        errorString += os.str();
+        ret = false;
+    }
+
+    return ret;
+}
+
+
 bool stringCannotBeEmpty(const std::string &optionName, std::string &errorString, const CommandHandler &args)
 {
     bool ret = true;
diff --git a/src/commands/CheckFunctions.hh b/src/commands/CheckFunctions.hh
index 45a69d2..8a4079f 100644
--- a/src/commands/CheckFunctions.hh
+++ b/src/commands/CheckFunctions.hh
@@ -15,6 +15,7 @@ class CommandHandler;
 namespace dsCommand {
 bool mustBePositive(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool mustBeFinite(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
+bool mustNotBeNaN(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool stringCannotBeEmpty(const std::string &/*optionName*/,std::string &/*errorString*/, const CommandHandler &);
 bool meshCannotExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool meshMustExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index b78aa08..90d538f 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -414,11 +414,11 @@ add2dInterfaceCmd(CommandHandler &data)
         {"name",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"region0",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"region1",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
-        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeFinite},
         {nullptr,  nullptr,  dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
     };
 
@@ -484,11 +484,11 @@ add2dContactCmd(CommandHandler &data)
         {"name",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"material", "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"region",  "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
-        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeFinite},
         {nullptr,  nullptr,  dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
     };
 
@@ -590,11 +590,11 @@ add2dRegionCmd(CommandHandler &data)
         {"mesh",     "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
         {"region",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"material", "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
-        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustNotBeNaN},
+        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeFinite},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL, nullptr}
     };
 
@@ -806,6 +806,18 @@ writeDevicesCmd(CommandHandler &data)
       include_test = ObjectHolder("");
     }
 
+    if (!device.empty())
+    {
+        // before the file is opened
+        Device *dev = nullptr;
+        errorString += dsValidate::ValidateDevice(device, dev);
+        if (!errorString.empty())
+        {
+            data.SetErrorResult(errorString);
+            return;
+        }
+    }
+
     std::unique_ptr<MeshWriter> mw;
 
     if (type.empty() || (type == "devsim"))
-- 
2.43.0


From 41d91d00c189af5dcfb952d432e87fe6761eef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 69/88] fix: model commands check their arguments before they
 act

---
 src/commands/ModelCommands.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/commands/ModelCommands.cc b/src/commands/ModelCommands.cc
index a80ba1e..e7bf7c8 100644
--- a/src/commands/ModelCommands.cc
+++ b/src/commands/ModelCommands.cc
@@ -778,6 +778,19 @@ createEdgeAverageModelCmd(CommandHandler &data)
       data.SetErrorResult(errorString);
       return;
     }
+
+    if (derivativeModel != nodeModel)
+    {
+      const std::string &nodeDerivative = nodeModel + ":" + derivativeModel;
+      if (!reg->GetNodeModel(nodeDerivative))
+      {
+        std::ostringstream os;
+        os << nodeDerivative << " is not an existing node model";
+        errorString = os.str();
+        data.SetErrorResult(errorString);
+        return;
+      }
+    }
   }
 
   AverageEdgeModelEnum::AverageType_t atype = AverageEdgeModelEnum::GetTypeName(averageType, errorString);
@@ -900,7 +913,7 @@ setNodeValuesCmd(CommandHandler &data)
 
     std::vector<double> values;
     ObjectHolder vdata = data.GetObjectHolder("values");
-    if (vdata.IsList())
+    if (data.IsSpecified("values"))
     {
       if (!initializer.empty())
       {
@@ -920,7 +933,7 @@ setNodeValuesCmd(CommandHandler &data)
     Device *dev = nullptr;
     Region *reg = nullptr;
 
-    errorString = ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
+    errorString += ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
 
     if (!errorString.empty())
     {
@@ -1631,6 +1644,11 @@ getNodeModelListCmd(CommandHandler &data)
       const Region::TetrahedronEdgeModelList_t &nml = reg->GetTetrahedronEdgeModelList();
       data.SetStringListResult(GetKeys(nml));
     }
+    else
+    {
+      errorString += "Element models are only available on 2D and 3D devices\n";
+      data.SetErrorResult(errorString);
+    }
   }
 }
 
-- 
2.43.0


From cd3a7be7fe3a9d7f14d6ee9edbb18b850755a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 70/88] fix: materials need either a region or a contact

---
 src/commands/MaterialCommands.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/commands/MaterialCommands.cc b/src/commands/MaterialCommands.cc
index 8ff294a..b091389 100644
--- a/src/commands/MaterialCommands.cc
+++ b/src/commands/MaterialCommands.cc
@@ -140,13 +140,18 @@ getParameterCmd(CommandHandler &data)
       errorString += "region and contact cannot be specified at same time\n";
     }
 
+    if ((commandName == "get_material" || commandName == "set_material") && regionName.empty() && contactName.empty())
+    {
+      errorString += "region or contact must be specified\n";
+    }
+
     if (!regionName.empty() || !contactName.empty())
     {
       if (!deviceName.empty())
       {
         if (!regionName.empty())
         {
-          errorString = ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
+          errorString += ValidateDeviceAndRegion(deviceName, regionName, dev, reg);
         }
         else if (!contactName.empty())
         {
@@ -160,7 +165,7 @@ getParameterCmd(CommandHandler &data)
     }
     else if (!deviceName.empty())
     {
-        errorString = ValidateDevice(deviceName, dev);
+        errorString += ValidateDevice(deviceName, dev);
     }
 
     if (!errorString.empty())
-- 
2.43.0


From 26efcf13abfb617506e9e21cdf5b308d207a482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 71/88] fix: get_equation_numbers reports a variable without
 equation

---
 src/commands/EquationCommands.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commands/EquationCommands.cc b/src/commands/EquationCommands.cc
index 9716145..51fa214 100644
--- a/src/commands/EquationCommands.cc
+++ b/src/commands/EquationCommands.cc
@@ -762,6 +762,11 @@ getEquationNumbersCmd(CommandHandler &data)
   if (!variableName.empty())
   {
     equationName = reg->GetEquationNameFromVariable(variableName);
+
+    if (equationName.empty())
+    {
+      errorString += std::string("Could not find equation for variable ") + variableName + "\n";
+    }
   }
 
   if (!equationName.empty())
-- 
2.43.0


From 5c19ec3593e255997dc31e04b374ee947fe15acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 72/88] fix: an expression that overflows when read makes no
 model

---
 src/AutoEquation/EquationFunctions.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/AutoEquation/EquationFunctions.cc b/src/AutoEquation/EquationFunctions.cc
index 9588742..0b69830 100644
--- a/src/AutoEquation/EquationFunctions.cc
+++ b/src/AutoEquation/EquationFunctions.cc
@@ -19,6 +19,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Interface.hh"
 
 #include "EngineAPI.hh"
+#include "FPECheck.hh"
 //#include "ModelCompiler.hh"
 
 class Interface;
@@ -252,6 +253,11 @@ Eqo::EqObjPtr CreateExprModel(const std::string &nm, const std::string &expr, Re
             os << *it << "\n";
         }
     }
+    else if (FPECheck::CheckFPE())
+    {
+        os << "There was a " << FPECheck::getFPEString() << " floating point exception while evaluating expression \"" << expr << "\"\n";
+        FPECheck::ClearFPE();
+    }
     errorstring = os.str();
 
     return testeq;
@@ -277,6 +283,11 @@ Eqo::EqObjPtr CreateInterfaceExprModel(const std::string &nm, const std::string
             os << *it << "\n";
         }
     }
+    else if (FPECheck::CheckFPE())
+    {
+        os << "There was a " << FPECheck::getFPEString() << " floating point exception while evaluating expression \"" << expr << "\"\n";
+        FPECheck::ClearFPE();
+    }
     errorstring = os.str();
 
     return testeq;
-- 
2.43.0


From 3c845862681e32eee577bd41bf69334f7a5acc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:17 +0000
Subject: [PATCH 73/88] fix: forget the math library handles when the loaded
 functions are cleared

---
 src/math/BlasHeaders.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/BlasHeaders.cc b/src/math/BlasHeaders.cc
index d76d503..2ed90be 100644
--- a/src/math/BlasHeaders.cc
+++ b/src/math/BlasHeaders.cc
@@ -203,6 +203,7 @@ void clear_table()
   {
     *entry.function_pointer = nullptr;
   }
+  blas_table::dll_handles.clear();
 }
 }
 
-- 
2.43.0


From 4662f7b3a1abe9b86e5832ae4fd2d5cf0e1b2725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:17 +0000
Subject: [PATCH 74/88] fix: forget the transient history when the equations it
 belongs to are deleted

---
 src/commands/CircuitCommands.cc |  6 ++++++
 src/commands/MeshingCommands.cc | 11 +++++++++++
 src/math/TimeData.cc            |  9 +++++++++
 src/math/TimeData.hh            |  4 ++++
 4 files changed, 30 insertions(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 28a9354..4cd6ed1 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -19,6 +19,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "IdealResistor.hh"
 #include "Signal.hh"
 
+#include "TimeData.hh"
 #include "Validate.hh"
 
 #include <sstream>
@@ -587,6 +588,11 @@ circuitDeleteCircuitCmd(CommandHandler &data)
       return;
   }
 
+  if (NodeKeeper::instance().HaveNodes())
+  {
+    ClearTimeData();
+  }
+
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
   data.SetEmptyResult();
diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 90d538f..2db15da 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -19,6 +19,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "DevsimRestartWriter.hh"
 #include "VTKWriter.hh"
 #include "TecplotWriter.hh"
+#include "TimeData.hh"
 #include "dsAssert.hh"
 #include "GmshReader.hh"
 #include "GmshLoader.hh"
@@ -699,6 +700,16 @@ deleteDeviceCmd(CommandHandler &data)
     const std::string &deviceName = data.GetStringOption("device");
 
     auto &gdata = GlobalData::GetInstance();
+
+    for (const auto &entry : gdata.GetDevice(deviceName)->GetRegionList())
+    {
+      if (!entry.second->GetEquationPtrList().empty())
+      {
+        ClearTimeData();
+        break;
+      }
+    }
+
     bool ret = gdata.DeleteDevice(deviceName);
 
     if (!ret)
diff --git a/src/math/TimeData.cc b/src/math/TimeData.cc
index 5fb0227..4bd0d1a 100644
--- a/src/math/TimeData.cc
+++ b/src/math/TimeData.cc
@@ -131,3 +131,12 @@ template void TimeData<double>::AssembleI(TimePoint_t, double, std::vector<doubl
 template void TimeData<double>::SetQ(TimePoint_t, const std::vector<double> &);
 template void TimeData<double>::AssembleQ(TimePoint_t, double, std::vector<double> &);
 #endif
+
+void ClearTimeData()
+{
+#if defined(DEVSIM_EXTENDED_PRECISION)
+  TimeData<float128>::DestroyInstance();
+#else
+  TimeData<double>::DestroyInstance();
+#endif
+}
diff --git a/src/math/TimeData.hh b/src/math/TimeData.hh
index 3ad6522..701ef50 100644
--- a/src/math/TimeData.hh
+++ b/src/math/TimeData.hh
@@ -58,5 +58,9 @@ class TimeData
         std::vector<std::vector<DoubleType > > QData;
 };
 
+/// The history recorded by the transient solves
+/// It belongs to the equations existing at the time
+void ClearTimeData();
+
 #endif
 
-- 
2.43.0


From 36f5ae32ed20f7306b97405fce797f053fea14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:17 +0000
Subject: [PATCH 75/88] fix: refuse custom equation entries outside of the
 matrix

---
 src/math/Newton.cc | 19 ++++++++++++-------
 src/math/Newton.hh |  4 ++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index 5b32037..e157eb6 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -360,7 +360,7 @@ void Newton<DoubleType>::LoadMatrixAndRHS(Matrix<DoubleType> &matrix, std::vecto
     pv.clear();
     m.clear();
     v.clear();
-    AssembleTclEquations(pm, pv, m, v, w, t);
+    AssembleTclEquations(pm, pv, m, v, rhs.size(), w, t);
     LoadIntoMatrixPermutated(pm, matrix, permvec, scl);
     LoadIntoRHSPermutated(pv, rhs, permvec, scl);
     LoadIntoMatrix(m, matrix, scl);
@@ -1371,10 +1371,15 @@ bool Newton<DoubleType>::NoiseSolve(const std::string &output_name, LinearSolver
 }
 
 template <typename DoubleType>
-void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHolder &matrix_objects, ObjectHolder &rhs_objects, RealRowColValueVec<DoubleType> &mat, RHSEntryVec<DoubleType> &rhs, dsMathEnum::WhatToLoad w)
+void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHolder &matrix_objects, ObjectHolder &rhs_objects, RealRowColValueVec<DoubleType> &mat, RHSEntryVec<DoubleType> &rhs, size_t num_equations, dsMathEnum::WhatToLoad w)
 {
   std::vector<ObjectHolder> objects;
 
+  const auto is_equation = [num_equations](const ObjectHolder::IntegerEntry_t &entry)
+  {
+    return entry.first && (entry.second >= 0) && (static_cast<size_t>(entry.second) < num_equations);
+  };
+
   //// Read in the entries here
   if (w != dsMathEnum::WhatToLoad::MATRIXONLY)
   {
@@ -1394,7 +1399,7 @@ void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHold
         ObjectHolder::IntegerEntry_t row = objects[i].GetInteger();
         ObjectHolder::DoubleEntry_t val = objects[i + 1].GetDouble();
 
-        if (row.first && val.first)
+        if (is_equation(row) && val.first)
         {
           rhs.push_back(std::make_pair(row.second, val.second));
         }
@@ -1429,7 +1434,7 @@ void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHold
         ObjectHolder::IntegerEntry_t col = objects[i + 1].GetInteger();
         ObjectHolder::DoubleEntry_t  val = objects[i + 2].GetDouble();
 
-        if (row.first && col.first && val.first)
+        if (is_equation(row) && is_equation(col) && val.first)
         {
           mat.push_back(RealRowColVal<DoubleType>(row.second, col.second, val.second));
         }
@@ -1446,7 +1451,7 @@ void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHold
 }
 
 template <typename DoubleType>
-void Newton<DoubleType>::AssembleTclEquations(RealRowColValueVec<DoubleType> &pmat, RHSEntryVec<DoubleType> &prhs, RealRowColValueVec<DoubleType> &mat, RHSEntryVec<DoubleType> &rhs, dsMathEnum::WhatToLoad w, dsMathEnum::TimeMode t)
+void Newton<DoubleType>::AssembleTclEquations(RealRowColValueVec<DoubleType> &pmat, RHSEntryVec<DoubleType> &prhs, RealRowColValueVec<DoubleType> &mat, RHSEntryVec<DoubleType> &rhs, size_t num_equations, dsMathEnum::WhatToLoad w, dsMathEnum::TimeMode t)
 {
   /*
     pmat, prhs will be row permutated before loading into matrix
@@ -1502,11 +1507,11 @@ void Newton<DoubleType>::AssembleTclEquations(RealRowColValueVec<DoubleType> &pm
 
     if (is_bulk.second)
     {
-      AssembleTclEquation(name, matrix_objects, rhs_objects, pmat, prhs, w);
+      AssembleTclEquation(name, matrix_objects, rhs_objects, pmat, prhs, num_equations, w);
     }
     else
     {
-      AssembleTclEquation(name, matrix_objects, rhs_objects, mat, rhs, w);
+      AssembleTclEquation(name, matrix_objects, rhs_objects, mat, rhs, num_equations, w);
     }
   }
 }
diff --git a/src/math/Newton.hh b/src/math/Newton.hh
index 117b37e..14f705b 100644
--- a/src/math/Newton.hh
+++ b/src/math/Newton.hh
@@ -230,9 +230,9 @@ class Newton {
 
         void AssembleBulk(RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, Device &, dsMathEnum::WhatToLoad, dsMathEnum::TimeMode);
 
-        void AssembleTclEquation(const std::string &name, ObjectHolder &, ObjectHolder &, RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &,  dsMathEnum::WhatToLoad);
+        void AssembleTclEquation(const std::string &name, ObjectHolder &, ObjectHolder &, RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, size_t, dsMathEnum::WhatToLoad);
 
-        void AssembleTclEquations(RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, dsMathEnum::WhatToLoad, dsMathEnum::TimeMode);
+        void AssembleTclEquations(RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, RealRowColValueVec<DoubleType> &, RHSEntryVec<DoubleType> &, size_t, dsMathEnum::WhatToLoad, dsMathEnum::TimeMode);
 
         const DoubleType rhssign = -1.0;
 
-- 
2.43.0


From a686fc2d739c693556aaf14ae6f8f578b0d418a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 76/88] fix: model compiler: integer constants are read as
 numbers of any size

---
 src/adiff/mcScanner.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adiff/mcScanner.l b/src/adiff/mcScanner.l
index ae18862..ba39aef 100644
--- a/src/adiff/mcScanner.l
+++ b/src/adiff/mcScanner.l
@@ -52,7 +52,7 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 {float1}|{float2}|{float3}    {yylval.dval = atof(yytext); return FLOAT;}
 
-{integer}   {yylval.dval = atoi(yytext); return INT;}
+{integer}   {yylval.dval = atof(yytext); return INT;}
 
 ^title  {yylval.str=yytext; return TITLE;}
 
-- 
2.43.0


From 8520250ebafa21f6482680cadefc6457ea8fb573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 77/88] fix: model compiler: rename the arguments of a function
 declared before its derivatives

---
 src/adiff/mcParser.y | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/adiff/mcParser.y b/src/adiff/mcParser.y
index 7e7a652..3437993 100644
--- a/src/adiff/mcParser.y
+++ b/src/adiff/mcParser.y
@@ -289,10 +289,20 @@ userfunccmd :
 		    Eqo::UserDiffInfoVec udiv;
 		    std::vector<Eqo::EqObjPtr> f;
 
+		    // create special reserved names
+		    for (size_t i = 0; i < nargs; ++i)
+		    {
+			std::string foo = $4[i];
+			$4[i] = "@" + foo; // create reserved name
+			for (size_t j = 0; j < nargs; ++j)
+			{
+			    $7[j]=$7[j]->subst(foo, Eqo::var($4[i]));
+			}
+		    }
 		    for (size_t i = 0; i < nargs; ++i)
 		    {
 			udiv.push_back(std::make_pair($4[i], $7[i]));
-			f.push_back(Eqo::var($4[i]));
+			f.push_back(Eqo::var($4[i].substr(1)));
 		    }
 		    Eqo::SetUserFuncDiffs($2, udiv);
 		}
-- 
2.43.0


From 370d61dc64b287f92a4b2fa2ea4a5e27793ca9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 78/88] fix: model compiler: expand only powers with an integer
 exponent

---
 src/adiff/EquationObject.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 0c9dbed..254936e 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -1795,16 +1795,12 @@ EqObjPtr Pow::expand()
             dval = -dval;
         }
 
-        std::ostringstream os;
-        os << dval;
-        std::string tstr = os.str();
         // look for non floating point numbers
         // arbitrarily restrict exponents less than 100
         // warning magic number
-//      cout << "DEBUG tstr" << tstr << endl;
-        if ((dval < 100) && (tstr.find('.') == std::string::npos))
+        if ((dval < 100) && (std::floor(dval) == dval))
         {
-            const int ex = atoi(tstr.c_str());
+            const int ex = static_cast<int>(dval);
             if (ex > 1)
             {
                 // assume already expanded above
-- 
2.43.0


From ffb474cbc305ba3c6c030038150d697bed0dedd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 79/88] fix: model compiler: keep powers where combining them
 needs a positive base

---
 src/adiff/EquationObject.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 254936e..067e7d1 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -150,6 +150,19 @@ struct EqVecCompare
 
 }
 
+namespace {
+bool isIntegerConstant(EqObjPtr x)
+{
+  x = x->Simplify();
+  if (x->getType() != CONST_OBJ)
+  {
+    return false;
+  }
+  const double v = static_cast<Constant *>(x.get())->getDoubleValue();
+  return std::floor(v) == v;
+}
+}
+
 /// Sorts in order of constants, variables, then other objects
 void SortEqVector(std::vector<EqObjPtr> &v1)
 {
@@ -1480,10 +1493,14 @@ EqObjPtr Log::Simplify()
    }
 
    ///log(pow(x,y))) = y*log(x);
+   /// not when the power is defined and positive for a negative x
    if (value->getType() == POW_OBJ)
    {
       Pow *Y = static_cast<Pow *>(value.get());
-      return (Y->exponent * log(Y->base));
+      if (Y->exponent->getType() == CONST_OBJ && !isIntegerConstant(con(0.5) * Y->exponent))
+      {
+        return (Y->exponent * log(Y->base));
+      }
    }
 
    return log(value->Simplify());
@@ -1662,7 +1679,8 @@ EqObjPtr Pow::Simplify()
 
    /// may want to do static cast
    /// pow(pow(x,y),z) = pow(x,(y*z))
-   if (b->getType() == POW_OBJ)
+   /// for a negative x, this is only true for an integer z
+   if (b->getType() == POW_OBJ && isIntegerConstant(expo))
    {
       Pow *Y = static_cast<Pow *>(b.get());
 //      cout << Y-> base << " " <<  (Y->exponent * exponent) << endl;
-- 
2.43.0


From 485bf2446010809798b8bcd4bbb7703fd849a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 80/88] fix: model compiler: integer constants do not overflow
 in the generated code

---
 src/adiff/EquationObject.cc | 44 +++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 067e7d1..c99526c 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -18,6 +18,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <algorithm>
 #include <map>
 #include <iomanip>
+#include <limits>
 
 
 namespace Eqo {
@@ -405,9 +406,37 @@ Product::Product(std::vector<EqObjPtr> one) : EquationObject(PRODUCT_OBJ)
    SortEqVector(values);
 }
 
+namespace {
+/// The printed expression is compiled, where the arithmetic of integer constants may overflow
+bool integerOverflow(const std::vector<EqObjPtr> &values, bool product)
+{
+    double total = product ? 1.0 : 0.0;
+    for (size_t i = 0; i < values.size(); ++i)
+    {
+        if (values[i]->getType() == CONST_OBJ)
+        {
+            const double v = std::abs(static_cast<Constant *>(values[i].get())->getDoubleValue());
+            total = product ? (total * v) : (total + v);
+        }
+    }
+    return total > std::numeric_limits<int>::max();
+}
+
+std::string floatString(EqObjPtr x, bool convert)
+{
+    std::string s = x->stringValue();
+    if (convert && x->getType() == CONST_OBJ && s.find_first_not_of("(-0123456789)") == std::string::npos)
+    {
+        s.insert(s.find_last_of("0123456789") + 1, ".0");
+    }
+    return s;
+}
+}
+
 std::string Product::createStringValue()
 {
     const size_t len = values.size();
+    const bool overflow = integerOverflow(values, true);
     std::ostringstream os;
 
     os << "(";
@@ -417,16 +446,16 @@ std::string Product::createStringValue()
         size_t beg = 1;
         if (len > 1 && s == "(-1)")
         {
-            os << "-" << values[1];
+            os << "-" << floatString(values[1], overflow);
             beg = 2;
         }
         else
         {
-            os << s;
+            os << floatString(values[0], overflow);
         }
 
         for (size_t i=beg; i < len; ++i)
-            os << " * " << values[i];
+            os << " * " << floatString(values[i], overflow);
     }
     os << ")";
 
@@ -1036,21 +1065,22 @@ Add::Add(std::vector<EqObjPtr> one) : EquationObject(ADD_OBJ)
 std::string Add::createStringValue()
 {
    const size_t len = values.size();
+   const bool overflow = integerOverflow(values, false);
    std::ostringstream os;
    os << "(";
    if (len > 0)
    {
         if (values[0]->getSign() > 0.0)
-            os << values[0];
+            os << floatString(values[0], overflow);
         else
-            os << "-" << values[0]->getUnsignedValue();
+            os << "-" << floatString(values[0]->getUnsignedValue(), overflow);
    }
    for (size_t i=1; i < len; ++i)
    {
         if (values[i]->getSign() > 0.0)
-            os << " + " << values[i];
+            os << " + " << floatString(values[i], overflow);
         else
-            os << " - " << values[i]->getUnsignedValue();
+            os << " - " << floatString(values[i]->getUnsignedValue(), overflow);
    }
    os << ")";
     return os.str();
-- 
2.43.0


From 19701b663826cf1575186fe6a07dee753bd1c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 81/88] fix: model compiler: a subexpression gets one temporary

---
 src/adiff/mcTest.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 5822bcd..4376718 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -12,6 +12,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "mcModel.hh"
 #include "dsAssert.hh"
 
+#include <algorithm>
 #include <iostream>
 #include <list>
 #include <sstream>
@@ -290,7 +291,8 @@ namespace {
           if (jt != SubExprMap.end())
           {
             std::cerr << "Ref count " << *it << " " << (jt->second).getCount() << "\n";
-            if ((jt->second).getCount() > 1)
+            // this list may still have the same subexpression from a previous pass
+            if ((jt->second).getCount() > 1 && std::find(final_list.begin(), final_list.end(), *it) == final_list.end())
             {
               final_list.push_back(*it);
             }
-- 
2.43.0


From ac41c1534aa9a93f4aa6a1d6494bea5a17cbaff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 82/88] fix: model compiler: write parameter defaults with all
 their digits

---
 src/adiff/mcTest.cc | 66 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 4376718..1297e8c 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -166,6 +166,16 @@ namespace {
    std::string parameterListName (const std::string &x) {
       return x;
    }
+   std::string parameterValue (double x) {
+      std::ostringstream os;
+      os << std::scientific << x;
+      if (std::atof(os.str().c_str()) != x)
+      {
+        os.str("");
+        os << std::setprecision(16) << x;
+      }
+      return os.str();
+   }
    std::string nodeNbrName (const std::string &x) {
       return std::string("node_num_") + x;
    }
@@ -568,7 +578,7 @@ out << "\n"
      {
         os <<
 "       double " << std::setw(15) << std::left << parameterListName(it->first) +
-              ";" <<  "//" << std::setw(20) << it->second.first << " " << std::scientific << it->second.second << "\n";
+              ";" <<  "//" << std::setw(20) << it->second.first << " " << parameterValue(it->second.second) << "\n";
 
      }
      out << os.str();
@@ -691,6 +701,53 @@ out << "}\n";
 }
 
 
+namespace {
+bool isNodeUsed(const std::string &node, Eqo::EqObjPtr eq, std::set<std::string> &visited)
+{
+   if (eq->getType() == Eqo::VARIABLE_OBJ)
+   {
+      return eq->stringValue() == node;
+   }
+
+   std::set<std::string> models;
+   if (eq->getType() == Eqo::MODEL_OBJ)
+   {
+      models.insert(eq->stringValue());
+   }
+   else
+   {
+      if (eq->getReferencedType(Eqo::VARIABLE_OBJ).count(node))
+      {
+         return true;
+      }
+      models = eq->getReferencedType(Eqo::MODEL_OBJ);
+   }
+
+   for (std::set<std::string>::iterator it = models.begin(); it != models.end(); ++it)
+   {
+      if (visited.insert(*it).second && isNodeUsed(node, findInModelList(*it), visited))
+      {
+         return true;
+      }
+   }
+   return false;
+}
+
+bool isNodeUsed(const std::string &node, assembletype_t atype)
+{
+   typedef std::map<std::string, std::pair<Eqo::EqObjPtr, Eqo::EqObjPtr> >::iterator StrEqEqMapIt;
+   std::set<std::string> visited;
+   for (StrEqEqMapIt it = EquationList.begin(); it != EquationList.end(); ++it)
+   {
+      if (isNodeUsed(node, (atype == DCASSEMBLE) ? it->second.first : it->second.second, visited))
+      {
+         return true;
+      }
+   }
+   return false;
+}
+}
+
 void PrintAssemblyRoutine(ofstream &out, assembletype_t atype)
 {
 
@@ -736,11 +793,12 @@ else if (atype == ACASSEMBLE)
       else if (atype == ACASSEMBLE)
          pt = seemit->second.second;
 
-      if (pt ->isZero())
-         continue;
-
       std::string tmpname=(EquationToNodeMap[seemit->first]);
 
+      // without an equation, the node may still be used by the others
+      if (pt->isZero() && !isNodeUsed(tmpname, atype))
+         continue;
+
       bos[EQNNUMBER] <<
 "   const size_t " << nodeNbrName(tmpname) << " = " << nodePtrName(tmpname) << "->getNumber();\n";
 
-- 
2.43.0


From ee650241c13465f15a5d8f22b1cfd24b4dbbbe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:48 +0000
Subject: [PATCH 83/88] fix: model compiler: declare the nodes used by the
 equations of other nodes

---
 src/adiff/mcTest.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 1297e8c..44b8d4c 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -20,6 +20,8 @@ SPDX-License-Identifier: Apache-2.0
 #include <iomanip>
 #include <fstream>
 #include <cstdio>
+#include <cstdlib>
+#include <set>
 
 using std::cerr;
 using std::endl;
@@ -644,7 +646,7 @@ ClassName << "::" << ClassName << "( NodeKeeper *nk, const char *name,\n";
       {
          os <<
 "       " << std::setw(15) << std::left << parameterListName(it->first) <<
-            " = " << std::scientific << it->second.second << ";\n";
+            " = " << parameterValue(it->second.second) << ";\n";
       }
       out << os.str();
    }
@@ -808,6 +810,8 @@ else if (atype == ACASSEMBLE)
       bos[SOLUTION] <<
 "   const double " << tmpname << " = (" << nodeIsGndName(tmpname) << ") ? 0.0 : " "sol[" << nodeNbrName(tmpname) << "];\n";
 
+      if (pt ->isZero())
+         continue;
 
 //       out << "calling print for equation!\n";
 //       out << seemit->second.first << "\n";
-- 
2.43.0


From f0586ce4c0f80cb847134675d44187a630c4c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:41 +0000
Subject: [PATCH 84/88] fix: ramp: end at the end bias and stop when the step
 cannot change the bias

---
 python_packages/ramp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python_packages/ramp.py b/python_packages/ramp.py
index 799d26b..6fa64ac 100644
--- a/python_packages/ramp.py
+++ b/python_packages/ramp.py
@@ -55,7 +55,7 @@ def rampbias(
     step_size = abs(step_size)
 
     last_bias = start_bias
-    while abs(last_bias - end_bias) > min_step:
+    while abs(last_bias - end_bias) > 0.0:
         print(("%s last end %e %e") % (contact, last_bias, end_bias))
         next_bias = last_bias + step_sign * step_size
         if next_bias < end_bias:
@@ -63,10 +63,16 @@ def rampbias(
         else:
             next_step_sign = -1
 
-        if next_step_sign != step_sign:
+        # the last step also covers what rounding leaves of the distance
+        if (
+            next_step_sign != step_sign
+            or abs(next_bias - end_bias) <= 1e-10 * step_size
+        ):
             next_bias = end_bias
             print("setting to last bias %e" % (end_bias))
             print("setting next bias %e" % (next_bias))
+        if next_bias == last_bias:
+            raise RuntimeError("Minimum step size too small")
         ds.set_parameter(
             device=device, name=GetContactBiasName(contact), value=next_bias
         )
-- 
2.43.0


From 281e68cea38c54614d4e8da6dc39f74acaf78522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:41 +0000
Subject: [PATCH 85/88] fix: model_create: EnsureEdgeFromNodeModelExists raised
 a TypeError and never created missing models

---
 python_packages/model_create.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python_packages/model_create.py b/python_packages/model_create.py
index b290ac8..66ebba0 100644
--- a/python_packages/model_create.py
+++ b/python_packages/model_create.py
@@ -200,10 +200,12 @@ def EnsureEdgeFromNodeModelExists(device, region, nodemodel):
     Checks if the edge models exists
     """
     if not InNodeModelList(device, region, nodemodel):
-        raise "{} must exist"
+        raise RuntimeError("{} must exist".format(nodemodel))
 
-    _emlist = get_edge_model_list(device=device, region=region)
-    emtest = "{0}@n0".format(nodemodel) and "{0}@n1".format(nodemodel)
+    emlist = get_edge_model_list(device=device, region=region)
+    emtest = (
+        "{0}@n0".format(nodemodel) in emlist and "{0}@n1".format(nodemodel) in emlist
+    )
     if not emtest:
         if debug:
             print("INFO: Creating ${0}@n0 and ${0}@n1".format(nodemodel))
-- 
2.43.0


From e16b7315504a88c0701113fff7a859d011aa843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:12 +0000
Subject: [PATCH 86/88] fix: release the old variable when an equation is
 replaced

---
 src/Geometry/Region.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index acd9bcb..aa6588b 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1152,12 +1152,20 @@ void Region::AddEquation(EquationHolder &eq)
     {
       if (oeq.GetVariable() != var)
       {
+        if (variableEquationMap.count(var))
+        {
+          std::ostringstream os;
+          os << "ERROR: Can't create equation if its variable is already being used\n"
+              << "New Equation: " << nm << ", Old Equation: " << variableEquationMap[var] << ", Variable: "  << var << "\n";
+          GeometryStream::WriteOut(OutputStream::OutputType::FATAL, *this, os.str());
+        }
+
         std::ostringstream os;
         os << "Warning: Adding a new equation by the same name with a different variable will remove mapping to other variable.\n"
             "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << oeq.GetVariable() << ", New Variable: " << var << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
 
-        variableEquationMap.erase(var);
+        variableEquationMap.erase(oeq.GetVariable());
         variableEquationMap[var] = nm;
       }
       else
-- 
2.43.0


From e7de08d9596673883b09a3a8edc199db57cf1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:12 +0000
Subject: [PATCH 87/88] fix: do not fail or exit when messages cannot be
 written to sys.stdout

---
 src/pythonapi/OutputStream.cc | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/pythonapi/OutputStream.cc b/src/pythonapi/OutputStream.cc
index 437922f..0a1ebb7 100644
--- a/src/pythonapi/OutputStream.cc
+++ b/src/pythonapi/OutputStream.cc
@@ -12,7 +12,6 @@ SPDX-License-Identifier: Apache-2.0
 #include "ObjectHolder.hh"
 #include "ControlGIL.hh"
 
-#include <iostream>
 
 void OutputStream::WriteOut(OutputType ot, Verbosity_t verbosity, const std::string &msg)
 {
@@ -33,13 +32,34 @@ void OutputStream::WriteOut(OutputType ot, Verbosity_t verbosity, const std::str
 
   auto print_function = [](auto &m)->void {
     PyObject *tc = PySys_GetObject("stdout");
-    if (!tc)
+    //// sys.stdout is None when there is no console
+    if ((!tc) || (tc == Py_None))
     {
-      std::cerr << "Could not find output channel!";
-      Py_Exit(-1);
+      return;
     }
-    PyFile_WriteString(m.c_str(), tc);
-    PyObject_CallMethod(tc, "flush", "");
+
+    Py_INCREF(tc);
+    PyObject *ret = nullptr;
+    if (PyFile_WriteString(m.c_str(), tc) == 0)
+    {
+      ret = PyObject_CallMethod(tc, "flush", "");
+    }
+
+    if (ret)
+    {
+      Py_DECREF(ret);
+    }
+    else
+    {
+      //// The message is lost, and the command must not return with an exception set
+      const bool interrupted = PyErr_ExceptionMatches(PyExc_KeyboardInterrupt);
+      PyErr_Clear();
+      if (interrupted)
+      {
+        PyErr_SetInterrupt();
+      }
+    }
+    Py_DECREF(tc);
   };
 
   if (ot == OutputType::INFO)
-- 
2.43.0


From 3de0be5fefdad9a9c2f475478950a55129de83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:12 +0000
Subject: [PATCH 88/88] fix: show error nodes only for the regions with the
 debug level

---
 src/math/Newton.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index e157eb6..53324e0 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -953,8 +953,6 @@ void Newton<DoubleType>::PrintDeviceErrors(const Device &device, ObjectHolderMap
 
   GlobalData &gdata = GlobalData::GetInstance();
 
-  bool show_error_node = false;
-
   const Device::RegionList_t regions = device.GetRegionList();
   for (Device::RegionList_t::const_iterator rit = regions.begin(); rit != regions.end(); ++rit)
   {
@@ -979,6 +977,7 @@ void Newton<DoubleType>::PrintDeviceErrors(const Device &device, ObjectHolderMap
                    "\tRelError: " << equation.GetRelError<DoubleType>() <<
                    "\tAbsError: " << equation.GetAbsError<DoubleType>() << "\n";
 
+      bool show_error_node = false;
       auto dbent = gdata.GetDBEntryOnRegion(name, region.GetName(), "debug_level");
       if (dbent.first)
       {
-- 
2.43.0

