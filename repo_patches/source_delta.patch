From c2445c4b4ee1d45d2812cd71619bb05c9337654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 01/36] fix: variable_index_out_of_bounds_exception::what()
 returned a dangling pointer

---
 viennamath/exception.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index e5ce131..95bc23b 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -19,6 +19,7 @@
 #include <vector>
 #include <exception>
 #include <sstream>
+#include <string>
 #include <memory>
 
 /** @file exception.hpp
@@ -122,19 +123,22 @@ namespace viennamath
    */
   class variable_index_out_of_bounds_exception : public std::exception
   {
-    const char * what() const throw()
-    {
-      std::stringstream ss;
-      ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
-      return ss.str().c_str();
-    }
+    const char * what() const throw() { return message_.c_str(); }
 
     public:
-      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size) {}
+      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size)
+      {
+        std::stringstream ss;
+        ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
+        message_ = ss.str();
+      }
+
+      virtual ~variable_index_out_of_bounds_exception() throw () {}
 
     private:
       long id_;
       long vector_size_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From 587b4ecd2e2c839bbc44083d89fb03242db02e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 02/36] fix: rt_interval assignment fell off the end without
 returning a value

---
 viennamath/runtime/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 2f1b5d2..c8095be 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -56,7 +56,8 @@ namespace viennamath
       {
         lower_ = other.lower().get()->clone();
         upper_ = other.upper().get()->clone();
-      };
+        return *this;
+      }
 
     private:
       rt_expr<InterfaceType> lower_;
-- 
2.43.0


From 9cc5a22a0bf15a17bb1b2c80f453d6eea81bc5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 03/36] fix: numerical quadrature of a symbolic integral
 dereferenced a null pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index b04694d..139db1c 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -151,11 +151,7 @@ namespace viennamath
             const SymbolicIntegrationOperation * op_symb_tmp = dynamic_cast<const SymbolicIntegrationOperation *>(integral_expression->op());
 
             if (op_symb_tmp != NULL)
-            {
-              return quadrature_rule_->eval(op_tmp->op().interval(),
-                                            rt_expr<InterfaceType>(integral_expression->lhs()->clone()),
-                                            op_tmp->op().variable());
-            }
+              throw symbolic_integral_evaluation_not_possible_exception();
 
             //std::cerr << "ERROR: No integral encountered in numerical quadrature!" << std::endl;
             //std::cerr << e << std::endl;
-- 
2.43.0


From c3f88a48009e08edbcad745d957a4c5b3eb1c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 04/36] fix: vector expression comparison ignored the size and
 read out of bounds

---
 viennamath/runtime/vector_expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index b3bd26d..bc249db 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -139,9 +139,9 @@ namespace viennamath
         if (dynamic_cast< const self_type * >(other) != NULL)
         {
           const self_type * temp = dynamic_cast< const self_type * >(other);
-          bool is_equal = true;
+          bool is_equal = (BaseType::size() == temp->size());
 
-          for (std::size_t i=0; i<temp->size(); ++i)
+          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
             is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );
 
 
-- 
2.43.0


From 057869ef10331d75a3caec1edf5398718234b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 05/36] fix: vector expressions did not implement the
 simplification interface

---
 viennamath/runtime/vector_expr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index bc249db..4827766 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -189,21 +189,21 @@ namespace viennamath
       };
 
       /** @brief Returns the optimized expression (constants collected, trivial operations removed, etc.) */
-      InterfaceType * optimize() const
+      InterfaceType * simplify() const
       {
         self_type * result = new self_type(BaseType::size());
 
         for (std::size_t i=0; i<result->size(); ++i)
-          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->optimize());
+          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->simplify());
 
         return result;
       }
 
       /** @brief Returns true if the expression can be simplified by collecting constants, removing trivial operations, etc. */
-      bool optimizable() const
+      bool can_simplify() const
       {
         for (std::size_t i=0; i<BaseType::size(); ++i)
-          if ( (*this)[i].get()->optimizable() == true )
+          if ( (*this)[i].get()->can_simplify() == true )
             return true;
 
         return false;
-- 
2.43.0


From 33e8abdc1442a1dce938aefc7835d8f4dd2994f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 06/36] fix: integrals over different intervals or variables
 compared equal

---
 viennamath/runtime/integral.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index 6f1e71f..670ea9f 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -96,6 +96,16 @@ namespace viennamath
 
 
 
+  /** @brief Two integrals are equal if the integration interval and the integration variable are the same */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_integral<InterfaceType> const & lhs, op_rt_integral<InterfaceType> const & rhs)
+  {
+    return lhs.variable().id() == rhs.variable().id()
+           && lhs.interval().lower().get()->deep_equal(rhs.interval().lower().get())
+           && lhs.interval().upper().get()->deep_equal(rhs.interval().upper().get());
+  }
+
+
   //
   // Convenience functions with rt_interval:
   //
@@ -186,6 +196,14 @@ namespace viennamath
   };
 
 
+  /** @brief Two symbolic integrals are equal if the IDs of their symbolic intervals are the same */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_symbolic_integral<InterfaceType> const & lhs, op_rt_symbolic_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().id() == rhs.interval().id();
+  }
+
+
   //
   // Convenience functions with symbolic integrals
   //
-- 
2.43.0


From 3b6672cf2afeacdd5a6fd946e49b22c6b5f5a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 07/36] fix: substituting a symbolic interval replaced
 intervals with other IDs as well

---
 viennamath/manipulation/substitute.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ab80b62..f2bafe7 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -296,7 +296,8 @@ namespace viennamath
     class integral_substitution_functor : public viennamath::rt_manipulation_interface<InterfaceType>
     {
       public:
-        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : ptr_(ptr) {}
+        integral_substitution_functor(id_type interval_id,
+                                      op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : interval_id_(interval_id), ptr_(ptr) {}
 
 
         InterfaceType * operator()(InterfaceType const * e) const
@@ -307,7 +308,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == interval_id_)
             {
               //std::cout << "Modifies!" << std::endl;
               return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
@@ -327,7 +328,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == interval_id_)
             {
               //std::cout << "FOUND!" << std::endl;
               return true;
@@ -337,6 +338,7 @@ namespace viennamath
         }
 
       private:
+        id_type interval_id_;
         std::auto_ptr<const op_unary<op_rt_integral<InterfaceType>, InterfaceType> > ptr_;
     };
   } //namespace detail
@@ -348,13 +350,13 @@ namespace viennamath
    * @param e          The expression on which the substitution is carried out
    */
   template <typename InterfaceType, typename PairType>
-  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & /*search*/,
+  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & search,
                                     PairType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
     typedef op_rt_integral<InterfaceType>    OperatorT;
 
-    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
+    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(search.id(), new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
 
     rt_expr<InterfaceType> temp(e.get()->recursive_manipulation(fun));
 
-- 
2.43.0


From b37ce5f1439fc5d34dbfd72d09a6a5d868cb0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 08/36] fix: differentiating a gradient leaked the
 differentiated operand

---
 viennamath/manipulation/detail/unary_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index fcf4617..e71e03d 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -656,7 +656,7 @@ namespace viennamath
 
       // return grad(...)
       delete c0;
-      return new rt_unary_expr<InterfaceType>(e->diff(diff_var), new op_unary<op_gradient<NumericT>, InterfaceType>());
+      return new rt_unary_expr<InterfaceType>(new_expr, new op_unary<op_gradient<NumericT>, InterfaceType>());
     }
 
     throw expression_not_differentiable_exception("Cannot differentiate gradient operator!");
-- 
2.43.0


From 6fa5f0acbf4ad72797724063033a4c1a5fb33890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 09/36] fix: traversal of unary expressions ignored step_into()

---
 viennamath/runtime/unary_expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index d861e4d..acc9b18 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -330,7 +330,8 @@ namespace viennamath
       void recursive_traversal(rt_traversal_wrapper<InterfaceType> const & fw) const
       {
         fw(this);
-        expr_->recursive_traversal(fw);
+        if (fw.step_into(this))
+          expr_->recursive_traversal(fw);
       }
 
     private:
-- 
2.43.0


From 82eaf3fa07e3e51cda5db3476b0750874fff2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 10/36] fix: a binary expression assigned from a constant was
 built with a unary operation and could not be used

---
 viennamath/runtime/binary_expr.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6a8bd51..932ac05 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -44,7 +44,7 @@ namespace viennamath
   class rt_binary_expr : public InterfaceType
   {
     typedef op_interface<InterfaceType>                                           op_interface_type;
-    typedef op_unary<op_id<typename InterfaceType::numeric_type>, InterfaceType>  op_unary_id_type;
+    typedef op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>  op_binary_mult_type;
 
       typedef rt_binary_expr<InterfaceType>    self_type;
 
@@ -190,9 +190,9 @@ namespace viennamath
       rt_binary_expr & operator=(ct_binary_expr<ct_constant<value1>, OP, ct_constant<value2> > const &)
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
+        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value1));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value2));
         return *this;
       }
 
@@ -209,8 +209,8 @@ namespace viennamath
       rt_binary_expr & operator=(rt_constant<ScalarType> const & other)
       {
         lhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(other.clone());
+        op_  = std::auto_ptr<op_interface_type>(new op_binary_mult_type());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(1));
         return *this;
       }
 
@@ -223,8 +223,8 @@ namespace viennamath
       rt_binary_expr & operator=(numeric_type value)
       {
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary_mult_type());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(1));
         return *this;
       }
 
-- 
2.43.0


From 7fda5801deeb30b254e771087d18f7577129f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 11/36] fix: assigning a compiletime expression with a variable
 operand to a binary expression did not compile

---
 viennamath/runtime/binary_expr.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 932ac05..b3a3542 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -160,30 +160,19 @@ namespace viennamath
       template <typename LHS, typename OP, typename RHS>
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, RHS> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
+        return *this = self_type(other);
       }
 
       template <typename LHS, typename OP, long value>
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, ct_constant<value> > const & other)
       {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        return *this;
+        return *this = self_type(other);
       }
 
       template <long value, typename OP, typename RHS>
       rt_binary_expr & operator=(ct_binary_expr<ct_constant<value>, OP, RHS > const & other)
       {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
+        return *this = self_type(other);
       }
 
       template <long value1, typename OP, long value2>
-- 
2.43.0


From db26f729557661860852f06e758b7680c2492b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 12/36] fix: copies of a LaTeX translator lost the customized
 strings

---
 viennamath/manipulation/latex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index ef06ebe..3bad166 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -455,7 +455,7 @@ namespace viennamath
       typedef viennamath::rt_variable<InterfaceType>                         Variable;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
@@ -512,7 +512,7 @@ namespace viennamath
       typedef std::pair<id_type, id_type>           KeyType;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
-- 
2.43.0


From e606b9c90835469d4f545d3b8d7259a94403fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 13/36] fix: assigning a LaTeX translator deleted its
 processors twice

---
 viennamath/manipulation/latex.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 3bad166..7891a95 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -125,6 +125,13 @@ namespace viennamath
         }
       }
 
+      rt_latex_translator & operator=(rt_latex_translator const & other)
+      {
+        rt_latex_translator tmp(other);
+        processors_.swap(tmp.processors_);
+        return *this;
+      }
+
       ~rt_latex_translator()
       {
         for (typename ProcessorArray::iterator it = processors_.begin();
-- 
2.43.0


From 152f17a54e0eeda2f74bd8d3247e0d4bcc537a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 14/36] fix: the LaTeX translator overload for constants did
 not compile

---
 viennamath/manipulation/latex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 7891a95..0692d96 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -155,7 +155,7 @@ namespace viennamath
       std::string operator()(UnaryExpr  const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
 
       template <typename ScalarType>
-      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(e, use_parenthesis); }
+      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Variable   const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(FuncSymbol const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Equation   const & e, bool use_parenthesis = false) const
-- 
2.43.0


From 402a46d04cbcf55213bc0a2099bc887cab457d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 15/36] fix: assigning an empty expression dereferenced a null
 pointer

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index f2d767e..3565d1a 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -128,7 +128,7 @@ namespace viennamath
 
       rt_expr & operator=(rt_expr const & other)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());
+        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
         return *this;
       }
 
-- 
2.43.0


From b89e4882724a2075ac13bdf794a02b245ed48654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 16/36] fix: assigning a compiletime variable to an expression
 did not compile

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index 3565d1a..57e601d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -161,7 +161,7 @@ namespace viennamath
       template <id_type id>
       rt_expr & operator=(ct_variable<id> const &)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_constant<InterfaceType>(id));
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
         return *this;
       }
 
-- 
2.43.0


From c308fd397fb323288f28d587bde2150065f921e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 17/36] fix: assignment of unary expressions did not compile

---
 viennamath/runtime/unary_expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index acc9b18..1607ec9 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,7 +93,7 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs_->clone());
+        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
         op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
         return *this;
       }
-- 
2.43.0


From ceb427e266d68da9f4d41faa97d7a40c91c02b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 18/36] fix: copying a default-constructed quadrature
 dereferenced a null pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index 139db1c..79ac90c 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -116,13 +116,13 @@ namespace viennamath
 
 
       // Copy CTOR:
-      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_->clone()) {}
+      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_.get() != NULL ? other.quadrature_rule_->clone() : NULL) {}
 
 
       // Copy CTOR:
       rt_numerical_quadrature & operator=(const rt_numerical_quadrature & other)
       {
-        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_->clone());
+        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_.get() != NULL ? other.quadrature_rule_->clone() : NULL);
         return *this;
       }
 
-- 
2.43.0


From 06824dc1db158e2d993cae02349b8786b378d4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 19/36] fix: evaluating a compiletime variable read out of
 bounds for short vectors

---
 viennamath/manipulation/eval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index 12cd769..a0b9017 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -284,9 +284,9 @@ namespace viennamath
    * @param v         Either a single number (typically of type double) or a vector type offering bracket-access (e.g. std::vector<>)
    */
   template <id_type id, typename VectorType>
-  default_numeric_type eval(ct_variable<id> /*c*/, VectorType const & v)
+  default_numeric_type eval(ct_variable<id> c, VectorType const & v)
   {
-    return v[id];
+    return c(v);
   }
 
   /** @brief Evaluation of a ViennaMath compiletime variable using a compiletime vector with one entry */
-- 
2.43.0


From 3eedf0e2576d573644d41918d87751ad0d72639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 20/36] fix: evaluating a variable with nonzero index at a
 scalar silently returned the scalar in release builds

---
 viennamath/runtime/variable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/variable.hpp b/viennamath/runtime/variable.hpp
index 388e57a..35d9c0c 100644
--- a/viennamath/runtime/variable.hpp
+++ b/viennamath/runtime/variable.hpp
@@ -107,7 +107,8 @@ namespace viennamath
       /** @brief Evaluation of the variable by a scalar value. Only valid if the variable ID is zero. */
       numeric_type operator()(numeric_type value) const
       {
-        assert(id_ == 0 && "Evaluation of variable with nonzero index by a scalar attempted!");
+        if (id_ > 0)
+          throw variable_index_out_of_bounds_exception(static_cast<long>(id_), 1);
 
         return value;
       }
-- 
2.43.0


From b39a78070a2669e5db6e6a93050e59c1988360e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 21/36] fix: compiletime vectors with one or two entries kept
 references to temporaries

---
 viennamath/compiletime/ct_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viennamath/compiletime/ct_vector.hpp b/viennamath/compiletime/ct_vector.hpp
index 7f0c4b9..e9d369f 100644
--- a/viennamath/compiletime/ct_vector.hpp
+++ b/viennamath/compiletime/ct_vector.hpp
@@ -54,7 +54,7 @@ namespace viennamath
       size_t size() const { return 1; }
 
     private:
-      T0 const & t0_;
+      T0 t0_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with one entry to an output stream */
@@ -98,8 +98,8 @@ namespace viennamath
       std::size_t size() const { return 2; }
 
     private:
-      T0 const & t0_;
-      T1 const & t1_;
+      T0 t0_;
+      T1 t1_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with two entries to an output stream */
-- 
2.43.0


From bbe9266d13d4b5a4791e97a071ecc4791c944c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 22/36] fix: the exponential function lacked the overload for
 unary expressions

---
 viennamath/manipulation/detail/unary_operations.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index e71e03d..349043a 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -100,6 +100,13 @@ namespace viennamath
                            new op_unary<op_exp<default_numeric_type> >());
   }
 
+  /** @brief Overload of the exponential function for a ViennaMath runtime unary expression */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> exp(rt_unary_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the exponential function for a ViennaMath runtime expression wrapper */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_expr<InterfaceType> const & other)
-- 
2.43.0


From 43e8877899c8ef28746318ba843f29089d1066bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 23/36] fix: the derivative of a variable with respect to a
 variable could not be called

---
 viennamath/manipulation/diff.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viennamath/manipulation/diff.hpp b/viennamath/manipulation/diff.hpp
index 5d52a3a..21ca518 100644
--- a/viennamath/manipulation/diff.hpp
+++ b/viennamath/manipulation/diff.hpp
@@ -207,8 +207,7 @@ namespace viennamath
   //////////// derivative of a variable: /////////////////////////////////
 
   /** @brief Overload for computing the derivative of a runtime variable */
-  template <id_type other_id, typename InterfaceType,
-            id_type id>
+  template <typename InterfaceType>
   rt_constant<typename InterfaceType::numeric_type> diff(rt_variable<InterfaceType> const & c,
                                                          rt_variable<InterfaceType> const & var)
   {
-- 
2.43.0


From 8a3ea0789b02f3bbccf10ac488a2d834c4d2efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 24/36] fix: documented substitutions by an expression or an
 integer did not compile

---
 viennamath/manipulation/substitute.hpp | 31 ++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index f2bafe7..ef1b370 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -195,6 +195,37 @@ namespace viennamath
     return temp;
   }
 
+  /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with the integer 'repl'. */
+  template <typename InterfaceType>
+  rt_expr<InterfaceType> substitute(rt_variable<InterfaceType> const & u,
+                                    int repl,
+                                    rt_expr<InterfaceType> const & e)
+  {
+    return substitute(u, static_cast<default_numeric_type>(repl), e);
+  }
+
+  /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with the expression 'repl'. */
+  template <typename InterfaceType>
+  rt_expr<InterfaceType> substitute(rt_variable<InterfaceType> const & u,
+                                    rt_expr<InterfaceType> const & repl,
+                                    rt_expr<InterfaceType> const & e)
+  {
+    rt_expr<InterfaceType> temp(e.get()->substitute(&u, repl.get()));
+    inplace_simplify(temp);
+    return temp;
+  }
+
+  /** @brief Replaces all occurances of the function symbol 'u' in the expression 'e' with 'repl'. */
+  template <typename InterfaceType, typename ReplacementType>
+  rt_expr<InterfaceType> substitute(rt_function_symbol<InterfaceType> const & u,
+                                    ReplacementType const & repl,
+                                    rt_expr<InterfaceType> const & e)
+  {
+    rt_expr<InterfaceType> temp(e.get()->substitute(&u, &repl));
+    inplace_simplify(temp);
+    return temp;
+  }
+
   /** @brief Replaces all occurances of the function symbol 'u' in the expression 'e' with 'repl'. */
   template <typename InterfaceType>
   rt_expr<InterfaceType> substitute(rt_function_symbol<InterfaceType> const & u,
-- 
2.43.0


From 0ba7fbadc92b02cda9279350fa8767ab949db0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 25/36] fix: simplify() was ambiguous for every compiletime
 expression

---
 viennamath/manipulation/simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 343b618..431c2c5 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -962,7 +962,8 @@ namespace viennamath
 
   /** @brief Returns a new, simplified expression. */
   template <typename T>
-  T simplify(T const & e)
+  typename enable_if<!result_of::is_compiletime<T>::value, T>::type
+  simplify(T const & e)
   {
     //do nothing, since primitive types cannot be simplified
     return e;
-- 
2.43.0


From 8427e47c9c99146342e7c8273ae3c10bfe62f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 26/36] fix: simplification of many compiletime expressions was
 ambiguous

---
 viennamath/manipulation/simplify.hpp | 207 +++++++++++++++++++++++++--
 1 file changed, 194 insertions(+), 13 deletions(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 431c2c5..55bc01f 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -645,24 +645,14 @@ namespace viennamath
       };
 
       //resolve ambiguity:
-      template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<1>,
-                                          op_minus<NumericT>,
-                                          ct_constant<0>
-                                          >  >
-      {
-        static const int value = 1;
-        typedef ct_constant<1>   type;
-      };
-
-      template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<-1>,
+      template <long value_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
                                           op_minus<NumericT>,
                                           ct_constant<0>
                                           >  >
       {
         static const int value = 1;
-        typedef ct_constant<-1>   type;
+        typedef ct_constant<value_1>   type;
       };
 
 
@@ -777,6 +767,197 @@ namespace viennamath
         typedef ct_constant<-value_1>            type;
       };
 
+      template <typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_div<NumericT>, ct_constant<-1> > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      ////////// Resolve ambiguities between the rules above:
+
+      // 0 + (0 - X), (0 - X) + 0, (0 - X) - 0
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_plus<NumericT>, ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS > > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS >   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS >, op_plus<NumericT>, ct_constant<0> > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS >   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS >, op_minus<NumericT>, ct_constant<0> > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS >   type;
+      };
+
+
+      // zero and rational numbers
+
+      template <long n, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_plus<NumericT>, ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> > > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> >   type;
+      };
+
+      template <long n, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> >, op_plus<NumericT>, ct_constant<0> > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> >   type;
+      };
+
+      template <long n, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_mult<NumericT>, ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> > > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <long n, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> >, op_mult<NumericT>, ct_constant<0> > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <long n, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_div<NumericT>, ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> > > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+
+      // one and rational numbers
+
+      template <long n, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>, op_mult<NumericT>, ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> > > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> >   type;
+      };
+
+      template <long n, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> >, op_mult<NumericT>, ct_constant<1> > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> >   type;
+      };
+
+      template <long n, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> >, op_div<NumericT>, ct_constant<1> > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<n>, op_div<NumericT>, ct_constant<d> >   type;
+      };
+
+
+      // inverses: 0 * (1/X), (1/X) * 0, 1 * (1/X), (1/X) * 1
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS > > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS >, op_mult<NumericT>, ct_constant<0> > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS > > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS >   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS >, op_mult<NumericT>, ct_constant<1> > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS >   type;
+      };
+
+      template <typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d> > > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d> >, op_mult<NumericT>, ct_constant<0> > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d> > > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d> >   type;
+      };
+
+      template <typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d> >, op_mult<NumericT>, ct_constant<1> > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d> >   type;
+      };
+
+
+      // inverses and rational numbers: c * (1/d), (1/d) * c, (1/d) * (n/d), (n/d) * (1/d), (1/d) * (1/d)
+
+      template <long c, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_constant<c>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d> > > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<c>, op_div<NumericT>, ct_constant<d> >   type;
+      };
+
+      template <long c, typename NumericT, long d>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d> >, op_mult<NumericT>, ct_constant<c> > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<c>, op_div<NumericT>, ct_constant<d> >   type;
+      };
+
+      template <typename NumericT, long d1, long n2, long d2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d1> >, op_mult<NumericT>, ct_binary_expr<ct_constant<n2>, op_div<NumericT>, ct_constant<d2> > > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<n2>, op_div<NumericT>, ct_constant<d1 * d2> >   type;
+      };
+
+      template <typename NumericT, long n1, long d1, long d2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<n1>, op_div<NumericT>, ct_constant<d1> >, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d2> > > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<n1>, op_div<NumericT>, ct_constant<d1 * d2> >   type;
+      };
+
+      template <typename NumericT, long d1, long d2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d1> >, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d2> > > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<d1 * d2> >   type;
+      };
+
 
     } //namespace detail
 
-- 
2.43.0


From ddf1e53df507366b97b1c47d038b59e47f9e3b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 27/36] fix: compiletime rational arithmetic truncated long
 constants to int

---
 viennamath/forwards.h                |  4 +--
 viennamath/manipulation/simplify.hpp | 52 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/viennamath/forwards.h b/viennamath/forwards.h
index 62d5a75..69be73e 100644
--- a/viennamath/forwards.h
+++ b/viennamath/forwards.h
@@ -657,14 +657,14 @@ namespace viennamath
     template <long a, long b>
     struct gcd
     {
-      static const int value = gcd<b, a % b>::value;
+      static const long value = gcd<b, a % b>::value;
     };
 
     /** @brief Specialization for the computation of the greatest common divisor of a and 0, which is a */
     template <long a>
     struct gcd <a, 0>
     {
-      static const int value = a;
+      static const long value = a;
     };
 
     /** @brief Specialization forcing a compile time error, since the greatest common divisor of 0 and 0 is not defined. */
diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 55bc01f..e4bfaa6 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -365,8 +365,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -384,8 +384,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 + numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 + numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -403,8 +403,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 + value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 + value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -426,8 +426,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -444,8 +444,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 - numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 - numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -462,8 +462,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 - value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 - value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -480,8 +480,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -502,8 +502,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * numerator_2;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -520,8 +520,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -538,8 +538,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * value_2;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 * value_2;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -559,8 +559,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2;
-        static const int denominator = denominator_1 * numerator_2;
+        static const long numerator = numerator_1 * denominator_2;
+        static const long denominator = denominator_1 * numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -577,8 +577,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2;
-        static const int denominator = numerator_2;
+        static const long numerator = value_1 * denominator_2;
+        static const long denominator = numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -595,8 +595,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1 * value_2;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * value_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
-- 
2.43.0


From 29d8c42de6a1434dce2a6de1550ed190d6547df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 28/36] fix: nested integrals over the same symbolic interval
 were not replaced

---
 viennamath/manipulation/substitute.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ef1b370..bdf0e07 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -342,7 +342,9 @@ namespace viennamath
             if (op_ptr != NULL && op_ptr->op().interval().id() == interval_id_)
             {
               //std::cout << "Modifies!" << std::endl;
-              return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
+              // the integrand may contain further integrals over the same symbolic interval:
+              viennamath::rt_manipulation_wrapper<InterfaceType> fun( new integral_substitution_functor<InterfaceType>(interval_id_, new op_unary<op_rt_integral<InterfaceType>, InterfaceType>(ptr_->op())) );
+              return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->recursive_manipulation(fun), ptr_->clone());
             }
           }
 
-- 
2.43.0


From 564a7f5d3ab37d4bb330ac11f338ca13af88cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 29/36] fix: assigning an expression object from its own
 subexpression used freed memory

---
 viennamath/runtime/binary_expr.hpp | 10 +++++++---
 viennamath/runtime/interval.hpp    |  6 ++++--
 viennamath/runtime/unary_expr.hpp  |  7 +++++--
 viennamath/runtime/vector_expr.hpp | 10 ++++++++++
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index b3a3542..32d8952 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -188,9 +188,13 @@ namespace viennamath
 
       rt_binary_expr & operator=(rt_binary_expr const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.lhs()->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
-        rhs_ = std::auto_ptr<InterfaceType>(other.rhs()->clone());
+        //copy everything first: 'other' might be a subexpression of *this
+        std::auto_ptr<InterfaceType>     new_lhs(other.lhs()->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op()->clone());
+        std::auto_ptr<InterfaceType>     new_rhs(other.rhs()->clone());
+        lhs_ = new_lhs;
+        op_  = new_op;
+        rhs_ = new_rhs;
         return *this;
       }
 
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index c8095be..d0238d7 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -54,8 +54,10 @@ namespace viennamath
 
       rt_interval const & operator=(rt_interval const & other)
       {
-        lower_ = other.lower().get()->clone();
-        upper_ = other.upper().get()->clone();
+        //copy both bounds first: 'other' might belong to an integral in one of the bounds of *this
+        rt_interval temp(other);
+        lower_ = temp.lower_;
+        upper_ = temp.upper_;
         return *this;
       }
 
diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 1607ec9..8d27406 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,8 +93,11 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
+        //copy everything first: 'other' might be a subexpression of *this
+        std::auto_ptr<InterfaceType>     new_expr(other.expr_->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op_->clone());
+        expr_ = new_expr;
+        op_  = new_op;
         return *this;
       }
 
diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index 4827766..79ae1ae 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -57,6 +57,16 @@ namespace viennamath
           BaseType::operator[](i) = viennamath::rt_constant<numeric_type, interface_type>(0);
       }
 
+      rt_vector_expr(self_type const & other) : InterfaceType(), BaseType(other) {}
+
+      /** @brief Assignment. Copies all entries first, because 'other' might be part of an entry of *this. */
+      self_type & operator=(self_type const & other)
+      {
+        BaseType temp(other);
+        BaseType::swap(temp);
+        return *this;
+      }
+
       /** @brief Operator overload for adding a vector expression from another vector expression. */
       self_type operator+(self_type const & other) const
       {
-- 
2.43.0


From 20a29683b0b3ad9f586674ac42fe57d9a15d623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 30/36] fix: compiletime integration treated every variable as
 the integration variable

Integrating a lone variable (or a sum containing one) with respect to a different
variable returned the integral of the integration variable.
---
 viennamath/manipulation/integrate.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 0828d82..0e9c813 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -294,6 +294,7 @@ namespace viennamath
         typedef typename ct_function_symbol<TAG>::ERROR_INTEGRATION_OF_FUNCTION_SYMBOL_NOT_SUPPORTED    type;
       };
 
+      // a variable other than the integration variable is constant with respect to the integration:
       template <typename LowerBound, typename UpperBound,
                 id_type id,
                 typename VariableType>
@@ -301,6 +302,27 @@ namespace viennamath
                             ct_variable<id>,
                             VariableType
                             >
+      {
+        typedef ct_binary_expr<UpperBound,
+                              op_minus<default_numeric_type>,
+                              LowerBound
+                              >                    interval_length;
+
+        typedef ct_binary_expr< ct_variable<id>,
+                                op_mult<default_numeric_type>,
+                                interval_length
+                              >    integrated_type;
+
+        typedef typename viennamath::result_of::simplify<integrated_type>::type   type;
+      };
+
+      // the integration variable:
+      template <typename LowerBound, typename UpperBound,
+                id_type id>
+      struct integrate_impl <LowerBound, UpperBound,
+                            ct_variable<id>,
+                            ct_variable<id>
+                            >
       {
         typedef ct_binary_expr< ct_binary_expr<UpperBound,
                                               op_mult<default_numeric_type>,
-- 
2.43.0


From abb9fcdf67c50ba457ddc324abd1ac627a10711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 31/36] fix: compiletime integration failed to compile where
 simplification factors out a sign

---
 viennamath/manipulation/integrate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 0e9c813..0bcee77 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -365,9 +365,11 @@ namespace viennamath
       typedef ct_binary_expr<LHS, OP, RHS>                                        IntegrandType;
       typedef typename viennamath::result_of::expand<IntegrandType>::type         expanded_integrand;
       typedef typename viennamath::result_of::simplify<expanded_integrand>::type  simplified_integrand;
+      //simplification may factor out the sign of a sum, thus expand again:
+      typedef typename viennamath::result_of::expand<simplified_integrand>::type  final_integrand;
 
       typedef typename detail::integrate_impl<LowerBound, UpperBound,
-                                              simplified_integrand,
+                                              final_integrand,
                                               VariableType>::type    type;
 
     };
-- 
2.43.0


From d1bda3f96d77057e77bed7a62c36c2ccd8b3e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:49 +0000
Subject: [PATCH 32/36] fix: make_interval was ambiguous for a compiletime
 variable and a runtime bound

---
 viennamath/runtime/interval.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index d0238d7..e883d21 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -226,14 +226,6 @@ namespace viennamath
     return rt_interval<typename RHSType::interface_type>(lhs, rhs);
   }
 
-  /** @brief Creates an interval, where the lower bound is given by a ViennaMath compiletime variable */
-  template <id_type id, typename RHSType>
-  rt_interval<typename RHSType::interface_type>
-  make_interval(ct_variable<id> const & lhs, RHSType const & rhs)
-  {
-    return rt_interval<typename RHSType::interface_type>(lhs, rhs);
-  }
-
 }
 
 #endif
-- 
2.43.0


From a8688c7a112a0f34dca03c2f431dff325f8f2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:49 +0000
Subject: [PATCH 33/36] fix: make_equation could not be called with a number
 and a runtime constant

---
 viennamath/runtime/equation.hpp | 2 +-
 viennamath/runtime/interval.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/equation.hpp b/viennamath/runtime/equation.hpp
index aaf99fb..30025ab 100644
--- a/viennamath/runtime/equation.hpp
+++ b/viennamath/runtime/equation.hpp
@@ -72,7 +72,7 @@ namespace viennamath
 
   ////// scalar is first argument:
   /** @brief Generator for an equation with a (floating point) constant as left hand side and a ViennaMath runtime constant as right hand side */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_equation<InterfaceType> make_equation(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_equation<InterfaceType>(lhs, rhs);
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index e883d21..b356bcc 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -94,7 +94,7 @@ namespace viennamath
   }
 
   /** @brief Creates an interval, where the upper bound is given by a ViennaMath constant */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_interval<InterfaceType> make_interval(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_interval<InterfaceType>(lhs, rhs);
-- 
2.43.0


From 579a936fba7ef0ec175f4d4c0c333c0633d6dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:26 +0000
Subject: [PATCH 34/36] fix: dividing compiletime expressions that differ only
 in a runtime constant gave 1

---
 viennamath/compiletime/operations/ct_expr.hpp | 49 +++++++++++++++++--
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_expr.hpp b/viennamath/compiletime/operations/ct_expr.hpp
index 1aa3b59..e859a96 100644
--- a/viennamath/compiletime/operations/ct_expr.hpp
+++ b/viennamath/compiletime/operations/ct_expr.hpp
@@ -154,13 +154,54 @@ namespace viennamath
 
   /////////////////////////////////// operator/ ///////////////////////////////////
 
+      /** @brief Implementation details for functionality in ViennaMath. Not intended for direct use. */
+      namespace detail
+      {
+        /** @brief Metafunction for checking whether a compiletime expression holds a runtime constant, in which case its value is not determined by its type. */
+        template <typename T>
+        struct holds_rt_constant
+        {
+          enum { value = false };
+        };
+
+        template <typename T, typename InterfaceType>
+        struct holds_rt_constant< rt_constant<T, InterfaceType> >
+        {
+          enum { value = true };
+        };
+
+        template <typename LHS, typename OP, typename RHS>
+        struct holds_rt_constant< ct_binary_expr<LHS, OP, RHS> >
+        {
+          enum { value = holds_rt_constant<LHS>::value || holds_rt_constant<RHS>::value };
+        };
+
+        /** @brief Division of two expressions of the same type: The same type means the same expression... */
+        template <typename T, bool holds_rt_constant>
+        struct same_type_division
+        {
+          typedef ct_constant<1>    type;
+
+          static type instance(T const & /*lhs*/, T const & /*rhs*/) { return type(); }
+        };
+
+        /** @brief ... unless runtime constants are involved. */
+        template <typename T>
+        struct same_type_division<T, true>
+        {
+          typedef ct_binary_expr<T, op_div<default_numeric_type>, T>    type;
+
+          static type instance(T const & lhs, T const & rhs) { return type(lhs, rhs); }
+        };
+      }
+
       /** @brief Special overload: division of the same thing leads to '1' */
       template <typename LHS, typename OP, typename RHS>
-      ct_constant<1>
-      operator/(ct_binary_expr<LHS, OP, RHS> const & /*lhs*/,
-                ct_binary_expr<LHS, OP, RHS> const & /*other*/)
+      typename detail::same_type_division< ct_binary_expr<LHS, OP, RHS>, detail::holds_rt_constant< ct_binary_expr<LHS, OP, RHS> >::value >::type
+      operator/(ct_binary_expr<LHS, OP, RHS> const & lhs,
+                ct_binary_expr<LHS, OP, RHS> const & other)
       {
-        return ct_constant<1>();
+        return detail::same_type_division< ct_binary_expr<LHS, OP, RHS>, detail::holds_rt_constant< ct_binary_expr<LHS, OP, RHS> >::value >::instance(lhs, other);
       }
 
 }
-- 
2.43.0


From 4403faf1fbdb1de6ae9a48cfffc432f75ecf52ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:19 +0000
Subject: [PATCH 35/36] fix: sums and differences of runtime constants and
 compiletime expressions did not compile or convert

---
 .../compiletime/operations/ct_constant.hpp    |  8 +++----
 viennamath/compiletime/operations/ct_ct.hpp   |  8 +++----
 viennamath/runtime/binary_expr.hpp            | 22 +++++++++++++++++++
 viennamath/runtime/operations/constant.hpp    |  6 ++---
 4 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_constant.hpp b/viennamath/compiletime/operations/ct_constant.hpp
index ae359f7..dd7a4fb 100644
--- a/viennamath/compiletime/operations/ct_constant.hpp
+++ b/viennamath/compiletime/operations/ct_constant.hpp
@@ -43,7 +43,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 + X) -> [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -70,7 +70,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 - X) -> [ct_c1 + ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -109,7 +109,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 + X) -> [ct_c1 - ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -136,7 +136,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 - X) -> [ct_c1 - ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
diff --git a/viennamath/compiletime/operations/ct_ct.hpp b/viennamath/compiletime/operations/ct_ct.hpp
index 6eb3a95..e3a3eb5 100644
--- a/viennamath/compiletime/operations/ct_ct.hpp
+++ b/viennamath/compiletime/operations/ct_ct.hpp
@@ -40,7 +40,7 @@ namespace viennamath
                              op_plus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for subtracting two compiletime expressions */
@@ -51,7 +51,7 @@ namespace viennamath
                              op_minus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for multiplying two compiletime expressions */
@@ -62,7 +62,7 @@ namespace viennamath
                              op_mult<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for dividing two compiletime expressions */
@@ -73,7 +73,7 @@ namespace viennamath
                              op_div<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
   }
diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 32d8952..5f2bfce 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -136,6 +136,28 @@ namespace viennamath
         rhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
       }
 
+      /////////////////// special case: runtime constant involved: //////////////////////////
+      template <typename T, typename OP, typename RHS>
+      explicit rt_binary_expr(ct_binary_expr<rt_constant<T, InterfaceType>, OP, RHS> const & other) : op_(new op_binary<OP, InterfaceType>())
+      {
+        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(other.lhs().unwrap()));
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+      }
+
+      template <typename T, typename OP, long value>
+      explicit rt_binary_expr(ct_binary_expr<rt_constant<T, InterfaceType>, OP, ct_constant<value> > const & other) : op_(new op_binary<OP, InterfaceType>())
+      {
+        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(other.lhs().unwrap()));
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+      }
+
+      template <typename T, typename OP, id_type id>
+      explicit rt_binary_expr(ct_binary_expr<rt_constant<T, InterfaceType>, OP, ct_variable<id> > const & other) : op_(new op_binary<OP, InterfaceType>())
+      {
+        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(other.lhs().unwrap()));
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
+      }
+
       /*explicit rt_binary_expr(variable<InterfaceType> const & other) : lhs_(other.clone()),
                                                                     op_(new op_unary_id_type()),
                                                                     rhs_(other.clone()) {}
diff --git a/viennamath/runtime/operations/constant.hpp b/viennamath/runtime/operations/constant.hpp
index d00ef5d..2cb0821 100644
--- a/viennamath/runtime/operations/constant.hpp
+++ b/viennamath/runtime/operations/constant.hpp
@@ -116,16 +116,16 @@ namespace viennamath
 
     /** @brief Special overload for (ct_c1 - X) + c2 -> [ct_c1 + c2] - X, where ct_c1 is a compile constant, c2 is a runtime constant, and X is any expression: */
     template <long value, typename RHS, typename ScalarType, typename InterfaceType>
-    ct_binary_expr< rt_constant<default_numeric_type, InterfaceType >,
+    ct_binary_expr< rt_constant<typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type, InterfaceType >,
                     op_minus<default_numeric_type>,
                     RHS >
     operator+(ct_binary_expr<ct_constant<value>, op_minus<default_numeric_type>, RHS> const & lhs,
               rt_constant<ScalarType, InterfaceType> const & other)
     {
-      typedef rt_constant<ScalarType, InterfaceType>    result_constant;
+      typedef rt_constant<typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type, InterfaceType >    result_constant;
       return ct_binary_expr<result_constant,
                             op_minus<default_numeric_type>,
-                            RHS >(result_constant(value + other),
+                            RHS >(result_constant(value + static_cast<ScalarType>(other)),
                                   lhs.rhs());
     }
 
-- 
2.43.0


From 36eba644c1edc9e41bb92b6d6f349a198a3e27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:58 +0000
Subject: [PATCH 36/36] fix: constants of a scalar type other than the default
 one were unknown to LaTeX and unequal to the same number inside expressions

---
 viennamath/manipulation/latex.hpp | 7 ++++++-
 viennamath/runtime/constant.hpp   | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 0692d96..f215a40 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -155,7 +155,12 @@ namespace viennamath
       std::string operator()(UnaryExpr  const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
 
       template <typename ScalarType>
-      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
+      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const
+      {
+        viennamath::rt_expr<InterfaceType> c(e); //constants in an expression all have the same scalar type
+        return process_impl(c.get(), use_parenthesis);
+      }
+
       std::string operator()(Variable   const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(FuncSymbol const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Equation   const & e, bool use_parenthesis = false) const
diff --git a/viennamath/runtime/constant.hpp b/viennamath/runtime/constant.hpp
index 4334213..56a4fa7 100644
--- a/viennamath/runtime/constant.hpp
+++ b/viennamath/runtime/constant.hpp
@@ -63,8 +63,8 @@ namespace viennamath
       operator ScalarType() const { return s; }
 
       //interface requirements:
-      /** @brief Returns a copy of the constant. The object referred by the pointer is not automatically deleted, thus the caller needs to ensure deletion. */
-      InterfaceType * clone() const { return new self_type(s); }
+      /** @brief Returns a copy of the constant, using the scalar type all constants inside an expression are stored with. The object referred by the pointer is not automatically deleted, thus the caller needs to ensure deletion. */
+      InterfaceType * clone() const { return new rt_constant<numeric_type, InterfaceType>(s); }
 
       /** @brief (Trivially) Evaluates the constant. */
       numeric_type eval(std::vector<numeric_type> const & /*v*/) const { return s; }
@@ -128,7 +128,7 @@ namespace viennamath
       /** @brief Returns the result of differentiating the constant with respect to a variable, i.e. zero. */
       InterfaceType * diff(const InterfaceType * /*diff_var*/) const
       {
-        return new self_type(0);
+        return new rt_constant<numeric_type, InterfaceType>(0);
       }
 
     private:
-- 
2.43.0

