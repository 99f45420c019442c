From 6e9d2ebeb019bae0909fbaa30e489c2c322fb499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 01/49] fix: tokenize '>>' as a right shift

The syntax table mapped '>>' to OP_LSHIFT, so '8 >> 1' evaluated to 16.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 58a87b6..ceaf7f6 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -394,7 +394,7 @@ std::optional<Token> scanSyntax(Scanner& s)
         {"/", Token::OP_DIV},
         {"%", Token::OP_MOD},
         {"<<",Token::OP_LSHIFT},
-        {">>",Token::OP_LSHIFT},
+        {">>",Token::OP_RSHIFT},
         {"~", Token::OP_BITINV},
         {"|", Token::OP_BITOR},
         {"&", Token::OP_BITAND},
-- 
2.43.0


From 77153e12bd3db8e59ff5c57f6d0d02b4b8103f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 02/49] fix: reject NUL bytes instead of dropping the rest of
 the query

tokenize() took a NUL byte outside of a literal for the end of the input, so
everything after it was silently ignored.
---
 src/token.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index ceaf7f6..15cd6e1 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -434,7 +434,8 @@ std::vector<Token> tokenize(std::string_view expr)
         else if (auto t = scanSyntax(s))
             tokens.push_back(std::move(*t));
         else {
-            if (s.at(0) != '\0')
+            /* Anything left (including a NUL byte) is not part of the language. */
+            if (s)
                 s.fail("Invalid input");
             break;
         }
-- 
2.43.0


From 2b03277672eecbf466572556bd1ecf27271655b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 03/49] fix: accept an explicit plus sign in number exponents

'1e+5' was read as '1' followed by '+ 5', which silently evaluated to 6.
---
 src/token.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/token.cpp b/src/token.cpp
index 15cd6e1..3478b75 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -315,6 +315,8 @@ std::optional<Token> scanNumber(Scanner& s)
             s.pop();
 
             const auto neg = s.match("-", Scanner::Skip);
+            if (!neg && s.at(0) == '+' && isdigit(s.at(1)))
+                s.pop();
             double exp = 0;
             while (isdigit(s.at(0))) {
                 exp *= 10.;
-- 
2.43.0


From d4bf2c8ab54cd6dec697a02acc1b7364c5662d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:27 +0000
Subject: [PATCH 04/49] fix: report a missing digit after the binary prefix
 '0b'

'0b' followed by a letter a-f passed the digit check without being scanned as
a number: the prefix was dropped and '0bA' was read as the word 'A'.
---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 3478b75..97b850d 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -338,7 +338,7 @@ std::optional<Token> scanNumber(Scanner& s)
     else if (s.match("0b", Scanner::Skip))
         base = 2;
 
-    if (base != 10 && !isxdigit(s.at(0)))
+    if ((base == 16 && !isxdigit(s.at(0))) || (base == 2 && !isdigit(s.at(0))))
         s.fail("Expected at least one digit after base specifier");
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
-- 
2.43.0


From bf839e3fb438c1d3da9deb5c0a64ff26219fd3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 05/49] fix: do not overflow while scanning integer literals

Integer literals beyond 64 bit overflowed a signed integer (undefined
behaviour) and silently wrapped to an unrelated value, also as the integer part
of floats. Out of range integers are an error now, floats keep their value.
---
 src/token.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 97b850d..d219ed2 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cassert>
+#include <limits>
 #include <ostream>
 #include <stdexcept>
 #include <string_view>
@@ -342,17 +343,22 @@ std::optional<Token> scanNumber(Scanner& s)
         s.fail("Expected at least one digit after base specifier");
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
-        int64_t n = 0;
+        uint64_t n = 0;
+        double f = 0; /* Same value as `n`, but not limited to 64 bit */
+        auto overflow = false;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
-            n *= base;
-            n += chr2digit(s, base, s.pop());
+            const uint64_t digit = chr2digit(s, base, s.pop());
+            overflow = overflow || n > (std::numeric_limits<uint64_t>::max() - digit) / base;
+            n = n * base + digit;
+            f = f * base + digit;
         }
+        if (!overflow)
+            f = static_cast<double>(n);
 
         if (s.match(".", Scanner::Skip)) {
             if (base != 10)
                 s.fail("Decimal point is allowed for base 10 numbers only");
 
-            double f = n;
             for (auto i = 1; isdigit(s.at(0)); ++i) {
                 f += (s.pop() - '0') / std::pow(10, i);
             }
@@ -366,11 +372,15 @@ std::optional<Token> scanNumber(Scanner& s)
 
         /* SCI notation results in float if exponent != 0 (=1) */
         if (auto sci = parseSciSuffix(s); sci != 1)
-            return Token(Token::FLOAT, n * sci, begin, s.pos());
+            return Token(Token::FLOAT, f * sci, begin, s.pos());
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
 
-        return Token(Token::INT, n, begin, s.pos());
+        /* Binary and hexadecimal numbers can set all 64 bits */
+        if (overflow || (base == 10 && n > (uint64_t)std::numeric_limits<int64_t>::max()))
+            s.fail("Integer number is out of range");
+
+        return Token(Token::INT, static_cast<int64_t>(n), begin, s.pos());
     }
 
     return {};
-- 
2.43.0


From 45370f78f170d3b67f960dd49e95bf1eb9d5f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 06/49] fix: keep operator precedence after postfix operators

The postfix operators '?', '...' and unary word operators continued parsing
with the lowest precedence, so everything behind them was swallowed by the
operator in front: '2 * a? + 1' was parsed as '2 * (a? + 1)' and
'not a? and b' as 'not (a? and b)'.
---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index a987a40..28bc1ea 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1065,7 +1065,7 @@ class UnaryPostOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1081,7 +1081,7 @@ class UnpackOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1104,8 +1104,8 @@ class WordOpParser : public InfixParselet
                                                                                std::move(left),
                                                                                std::move(right)));
         /* Parse as unary operator */
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
-                                                                                       std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
+                                                                          std::move(left)));
     }
 
     auto precedence() const -> int override
-- 
2.43.0


From e4cc78e884a4c7880a6aa763ec5bbf2ba9b8522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 07/49] fix: let comparisons bind tighter than equality

'<', '<=', '>' and '>=' are documented (and declared) to have a higher
precedence than '==' and '!=' but were registered with the same one:
'true == 2 < 3' was parsed as '(true == 2) < 3'.
---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 28bc1ea..c7e09b7 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1359,10 +1359,10 @@ auto compile(Environment& env, std::string_view sv, bool any, bool autoWildcard)
     /* Comparison/Test */
     p.infixParsers[Token::OP_EQ]     = std::make_unique<BinaryOpParser<OperatorEq,   Precedence::EQUALITY>>();
     p.infixParsers[Token::OP_NOT_EQ] = std::make_unique<BinaryOpParser<OperatorNeq,  Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::EQUALITY>>();
+    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::COMPARISON>>();
     p.infixParsers[Token::OP_AND]    = std::make_unique<AndOrParser>();
     p.infixParsers[Token::OP_OR]     = std::make_unique<AndOrParser>();
 
-- 
2.43.0


From a46507f652e026244ded0635fb94ac93e407bbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 08/49] fix: do not drop unknown values while folding constants

Paths and sub-queries skipped values which are unknown at compile time, and
ignored that the receiver of their substitute value asked to stop. An
expression with one constant and one unknown value was therefore folded to the
constant: 'arr(a.b, 1)' evaluated to '1' only, 'count(arr(1, a)._)' to 1.
---
 src/simfil.cpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index c7e09b7..1d65495 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -168,17 +168,19 @@ struct CountedResultFn : ResultFn
         return fn(std::move(ctx), std::move(vv));
     }
 
-    /* NOTE: You _must_ call finish before destruction! */
-    auto ensureCall()
+    /* NOTE: You _must_ call finish before destruction!
+     * Returns `r` or the result of the additional call, if one was necessary. */
+    auto ensureCall(Result r) -> Result
     {
         assert(!finished);
         if (calls == 0 && !finished) {
             finished = true;
             if (nonctx.phase == Context::Phase::Compilation)
-                fn(nonctx, Value::undef());
+                return fn(nonctx, Value::undef());
             else
-                fn(nonctx, Value::null());
+                return fn(nonctx, Value::null());
         }
+        return r;
     }
 };
 
@@ -227,8 +229,7 @@ public:
         };
 
         auto r = Iterate{ctx, res}.iterate(*val.node, 0);
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -457,8 +458,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -496,8 +496,8 @@ public:
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value lv) {
             return sub_->eval(ctx, lv, LambdaResultFn([&res, &lv](Context ctx, Value vv) {
                 auto bv = UnaryOperatorDispatcher<OperatorBool>::dispatch(vv);
-                if (bv.isa(ValueType::Undef))
-                    return Result::Continue;
+                if (bv.isa(ValueType::Undef)) /* Never hide unknown values from constant folding */
+                    return ctx.phase == Context::Phase::Compilation ? res(ctx, std::move(bv)) : Result::Continue;
 
                 if (bv.isa(ValueType::Bool) && bv.template as<ValueType::Bool>())
                     return res(ctx, lv);
@@ -505,8 +505,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -592,15 +591,16 @@ public:
         auto res = CountedResultFn<const ResultFn&>(ores, ctx);
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value v) {
+            /* Never hide unknown values from constant folding */
             if (v.isa(ValueType::Undef))
-                return Result::Continue;
+                return ctx.phase == Context::Phase::Compilation ? res(ctx, std::move(v)) : Result::Continue;
 
             if (v.isa(ValueType::Null) && !v.node)
                 return Result::Continue;
 
             return right_->eval(ctx, std::move(v), LambdaResultFn([this, &res](Context ctx, Value vv) {
                 if (vv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return ctx.phase == Context::Phase::Compilation ? res(ctx, std::move(vv)) : Result::Continue;
 
                 if (vv.isa(ValueType::Null) && !vv.node)
                     return Result::Continue;
@@ -608,8 +608,7 @@ public:
                 return res(ctx, std::move(vv));
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     };
 
     auto toString() const -> std::string override
-- 
2.43.0


From 94c013d34cd173ee5d37559c1ec9c445f1e9e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 09/49] fix: do not fold sum() over unknown values

With an expression argument, sum() evaluated the expression on values which are
unknown at compile time; they read as null, so 'sum(a.*, $sum + $val)' was
folded to the constant null.
---
 src/function.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/function.cpp b/src/function.cpp
index 716947a..6af3632 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -580,23 +580,30 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         raise<std::runtime_error>("sum: Expected at least 1 argument; got "s + std::to_string(args.size()));
 
     Value sum = Value::make((int64_t)0);
+    auto undef = false; /* At least one value is undef */
 
     const Expr* subexpr = args.size() >= 2 ? args[1].get() : nullptr;
     const Expr* initval = args.size() == 3 ? args[2].get() : nullptr;
     if (initval)
         (void)initval->eval(ctx, val, LambdaResultFn([&](Context ctx, Value vv) {
+            undef = undef || vv.isa(ValueType::Undef);
             sum = std::move(vv);
             return Result::Continue;
         }));
 
     (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+        undef = undef || vv.isa(ValueType::Undef);
+        if (undef && ctx.phase == Context::Phase::Compilation)
+            return Result::Stop;
+
         if (subexpr) {
             auto ov = model_ptr<OverlayNode>::make(vv);
             ov->set(StringPool::OverlaySum, sum);
             ov->set(StringPool::OverlayValue, vv);
             ov->set(StringPool::OverlayIndex, Value::make((int64_t)n++));
 
-            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum](auto ctx, auto vv) {
+            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum, &undef](auto ctx, auto vv) {
+                undef = undef || vv.isa(ValueType::Undef);
                 ov->set(StringPool::OverlaySum, vv);
                 sum = vv;
                 return Result::Continue;
@@ -612,6 +619,8 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         return Result::Continue;
     }));
 
+    if (undef && ctx.phase == Context::Phase::Compilation)
+        return res(std::move(ctx), Value::undef());
     return res(std::move(ctx), sum);
 }
 
-- 
2.43.0


From 72a931adabfcb2c1ee7a5fce0881e6ff71673010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 10/49] fix: let OverlayNode::set replace an existing value

std::map::insert() kept the old value, so updating '$sum' from within the
expression of sum() had no effect.
---
 src/overlay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 612ea8e..7b04ec1 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -20,7 +20,7 @@ OverlayNode::OverlayNode(ModelNode const& n)
 
 auto OverlayNode::set(StringId const& key, Value const& child) -> void
 {
-    model().overlayChildren_.insert({key, child});
+    model().overlayChildren_.insert_or_assign(key, child);
 }
 
 [[nodiscard]] ScalarValueType OverlayNode::value() const
-- 
2.43.0


From fa7ac32e2d9c9ebda083932588cbe3e17a18dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 11/49] fix: support overlays on values without a model node

Accessing a field which is not part of the overlay raised 'Attempt to
dereference null model_ptr!' if the overlaid value is a plain scalar, e.g. in
'sum(arr(1, 2), $sum + a)'.
---
 src/overlay.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 7b04ec1..1e6fa5b 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -41,25 +41,35 @@ auto OverlayNode::set(StringId const& key, Value const& child) -> void
             return iter->second.node;
         return ValueNode(iter->second.getScalar());
     }
+    if (!model().value_.node)
+        return {};
     return model().value_.node->get(key);
 }
 
 [[nodiscard]] ModelNode::Ptr OverlayNode::at(int64_t i) const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->at(i);
 }
 
 [[nodiscard]] StringId OverlayNode::keyAt(int64_t i) const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->keyAt(i);
 }
 
 [[nodiscard]] uint32_t OverlayNode::size() const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->size();
 }
 
 [[nodiscard]] bool OverlayNode::iterate(IterCallback const& cb) const {
+    if (!model().value_.node)
+        return true;
     return model().value_.node->iterate(cb);
 }
 
-- 
2.43.0


From dec8586480441d96901b1bad5ab534dcc7fa046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 12/49] fix: forward Stop from '*', '...' and split()

When the receiver of their values asked to stop, these stopped producing
values but reported Continue to their caller, which then went on evaluating
further operands.
---
 src/function.cpp | 2 +-
 src/simfil.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 6af3632..a76515c 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -508,7 +508,7 @@ auto SplitFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, con
     auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());
     for (auto&& item : items) {
         if (res(subctx, Value::make(std::move(item))) == Result::Stop)
-            break;
+            return Result::Stop;
     }
 
     return Result::Continue;
diff --git a/src/simfil.cpp b/src/simfil.cpp
index 1d65495..a2063ed 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -269,7 +269,7 @@ public:
             return true;
         }));
 
-        return Result::Continue;
+        return result;
     }
 
     auto toString() const -> std::string override
@@ -645,7 +645,8 @@ public:
                 auto r = Result::Continue;
                 obj.meta->unpack(obj, [&](Value vv) {
                     anyval = true;
-                    return res(ctx, std::move(vv)) == Result::Continue;
+                    r = res(ctx, std::move(vv));
+                    return r == Result::Continue;
                 });
 
                 if (r == Result::Stop)
-- 
2.43.0


From a5f3d5dce95ba97ae0f21913d863134443748f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 13/49] fix: do not stop the whole evaluation at the end of a
 selection

select() returned Stop to its caller once it had produced the selected values,
so 'arr(select(b.*, 0), 99)' never evaluated its second argument.
---
 src/function.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index a76515c..1b27c74 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -546,15 +546,18 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
     if (icnt <= 0)
         icnt = std::numeric_limits<int>::max();
 
-    auto result = args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
+    /* Note: Stopping the evaluation of the input at the end of the
+     * selection must not stop the evaluation of our caller. */
+    auto result = Result::Continue;
+    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
-                return res(ctx, std::move(vv));
+                return result = res(ctx, std::move(vv));
         if (n >= iidx + icnt)
             return Result::Stop;
         if (n >= iidx)
-            return res(ctx, std::move(vv));
+            return result = res(ctx, std::move(vv));
         return Result::Continue;
     }));
 
-- 
2.43.0


From 840f455f885796ab2cb73f38246bcee99e8163a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 14/49] fix: avoid an integer overflow in select()

'index + count' overflowed for large arguments (undefined behaviour).
---
 src/function.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 1b27c74..3c1803f 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -544,17 +544,17 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
     auto iidx = idx.as<ValueType::Int>();
     auto icnt = cnt.as<ValueType::Int>();
     if (icnt <= 0)
-        icnt = std::numeric_limits<int>::max();
+        icnt = std::numeric_limits<int64_t>::max();
 
     /* Note: Stopping the evaluation of the input at the end of the
      * selection must not stop the evaluation of our caller. */
     auto result = Result::Continue;
-    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
+    (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = (int64_t)-1](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
                 return result = res(ctx, std::move(vv));
-        if (n >= iidx + icnt)
+        if (n >= iidx && (uint64_t)n - (uint64_t)iidx >= (uint64_t)icnt)
             return Result::Stop;
         if (n >= iidx)
             return result = res(ctx, std::move(vv));
-- 
2.43.0


From e73ba18576f2234c712d8d4c4e32f4f75d089da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 15/49] fix: wrap around on integer overflow instead of
 undefined behaviour

---
 include/simfil/operator.h | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 884eff0..03a87c8 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -6,6 +6,7 @@
 #include "exception-handler.h"
 
 #include <cstdint>
+#include <limits>
 #include <string_view>
 #include <string>
 
@@ -81,8 +82,13 @@ struct OperatorNegate
 {
     NAME("-")
     DENY_OTHER()
-    DECL_OPERATION(int64_t, -)
     DECL_OPERATION(double,  -)
+
+    auto operator()(int64_t a) const -> int64_t
+    {
+        /* Wrap around on overflow */
+        return static_cast<int64_t>(-static_cast<uint64_t>(a));
+    }
 };
 
 struct OperatorBool
@@ -354,12 +360,20 @@ struct OperatorAsString
     }
 
 
+/* Integer arithmetic wraps around on overflow. */
+#define DECL_INT_OPERATION(op)                                      \
+    auto operator()(int64_t a, int64_t b) const -> int64_t          \
+    {                                                               \
+        return static_cast<int64_t>(                                \
+            static_cast<uint64_t>(a) op static_cast<uint64_t>(b));  \
+    }
+
 struct OperatorAdd
 {
     NAME("+")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,            int64_t,            +)
+    DECL_INT_OPERATION(+)
     DECL_OPERATION(int64_t,            double,             +)
     DECL_OPERATION(double,             int64_t,            +)
     DECL_OPERATION(double,             double,             +)
@@ -408,7 +422,7 @@ struct OperatorSub
     NAME("-")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,     int64_t,     -)
+    DECL_INT_OPERATION(-)
     DECL_OPERATION(int64_t,     double,      -)
     DECL_OPERATION(double,      int64_t,     -)
     DECL_OPERATION(double,      double,      -)
@@ -419,7 +433,7 @@ struct OperatorMul
     NAME("*")
     DENY_OTHER()
     NULL_AS_NULL()
-    DECL_OPERATION(int64_t,     int64_t,     *)
+    DECL_INT_OPERATION(*)
     DECL_OPERATION(int64_t,     double,      *)
     DECL_OPERATION(double,      int64_t,     *)
     DECL_OPERATION(double,      double,      *)
@@ -435,6 +449,9 @@ struct OperatorDiv
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        /* INT64_MIN / -1 overflows (wrap around) */
+        if (r == -1)
+            return OperatorNegate()(l);
         return static_cast<int64_t>(l / r);
     }
 
@@ -470,6 +487,9 @@ struct OperatorMod
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        /* INT64_MIN % -1 overflows */
+        if (r == -1)
+            return 0;
         return static_cast<int64_t>(l % r);
     }
 };
@@ -620,6 +640,7 @@ struct OperatorShr
 
 #undef DENY_OTHER
 #undef DECL_OPERATION
+#undef DECL_INT_OPERATION
 #undef NULL_AS
 #undef NULL_AS_NULL
 #undef NAME
-- 
2.43.0


From f585d65018a960e55af9565233b61d02236e3fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 16/49] fix: define shifts by more than 63 bits

---
 include/simfil/operator.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 03a87c8..b1fd2ec 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -626,7 +626,12 @@ struct OperatorShl
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     <<)
+
+    auto operator()(uint64_t a, uint64_t b) const -> uint64_t
+    {
+        /* Shifting by the width of the type or more is undefined behaviour */
+        return b < 64 ? a << b : 0;
+    }
 };
 
 struct OperatorShr
@@ -635,7 +640,12 @@ struct OperatorShr
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     >>)
+
+    auto operator()(uint64_t a, uint64_t b) const -> uint64_t
+    {
+        /* Shifting by the width of the type or more is undefined behaviour */
+        return b < 64 ? a >> b : 0;
+    }
 };
 
 #undef DENY_OTHER
-- 
2.43.0


From 034c53b6435ce83bf510e2c301f09074cdf1bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 17/49] fix: let out of range float to int casts return 0

---
 include/simfil/operator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index b1fd2ec..8257f40 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -6,7 +6,6 @@
 #include "exception-handler.h"
 
 #include <cstdint>
-#include <limits>
 #include <string_view>
 #include <string>
 
@@ -215,6 +214,9 @@ struct OperatorAsInt
 
     auto operator()(double v) const
     {
+        /* Values not representable as int (including NaN) are failures */
+        if (!(v >= -0x1p63 && v < 0x1p63))
+            return (int64_t)0;
         return static_cast<int64_t>(v);
     }
 
-- 
2.43.0


From e311c48bd112f2df23195ef86bf6bf9919b1d9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 18/49] fix: let 'as float' return a float for model nodes

---
 include/simfil/operator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 8257f40..fe344db 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -266,7 +266,7 @@ struct OperatorAsFloat
 
     auto operator()(const ModelNode&) const
     {
-        return (int64_t)0.0;
+        return 0.0;
     }
 
     NULL_AS((double)0)
-- 
2.43.0


From 9d93b147acb2d4d5fc8d700483fc091f1c449889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 19/49] fix: apply the limit for constant value lists

---
 src/simfil.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index a2063ed..c23fbd5 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -920,20 +920,20 @@ static auto simplifyOrForward(Environment* env, ExprPtr expr) -> ExprPtr
         return nullptr;
 
     std::deque<Value> values;
+    auto constant = true;
     auto stub = Context(env, Context::Phase::Compilation);
-    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
-        if (!vv.isa(ValueType::Undef) || vv.node) {
-            values.push_back(std::move(vv));
-            return Result::Continue;
-        }
+    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&](Context ctx, Value vv) {
+        /* Keep expressions yielding unknown or too many values as they are */
+        if ((vv.isa(ValueType::Undef) && !vv.node) || values.size() >= MultiConstExpr::Limit)
+            constant = false;
 
-        if (++n > MultiConstExpr::Limit) {
+        if (!constant) {
             values.clear();
             return Result::Stop;
         }
 
-        values.clear();
-        return Result::Stop;
+        values.push_back(std::move(vv));
+        return Result::Continue;
     }));
 
     /* Warn about constant results */
-- 
2.43.0


From 6fb1840cf0762a0a9c56b2d5fcdbe66208eee2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 20/49] fix: avoid integer overflows at the limits of a range

---
 src/types.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/types.cpp b/src/types.cpp
index 81cb5ec..4c086c1 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -34,7 +34,8 @@ auto IRangeType::unaryOp(std::string_view op, const IRange& self) const -> Value
         return Value::make(fmt::format("{}..{}", self.begin, self.end));
 
     if (op == OperatorLen::name())
-        return Value::make(static_cast<int64_t>(self.high() - self.low()));
+        return Value::make(static_cast<int64_t>(
+            static_cast<uint64_t>(self.high()) - static_cast<uint64_t>(self.low())));
 
     raise<InvalidOperandsError>(op);
 }
@@ -78,15 +79,8 @@ auto IRangeType::unpack(const IRange& self, std::function<bool(Value)> res) cons
     auto begin = self.begin;
     auto end = self.end;
 
-    auto step = 1;
-    if (begin > end)
-        step = -1;
-    auto i = begin - step;
-    do {
-        i += step;
-        if (!res(Value(ValueType::Int, static_cast<int64_t>(i))))
-            return;
-    } while (i != end);
+    auto step = begin > end ? -1 : 1;
+    for (auto i = begin; res(Value(ValueType::Int, static_cast<int64_t>(i))) && i != end; i += step) {}
 }
 
 ReType ReType::Type;
-- 
2.43.0


From 4c0a97cf638f937164e0156f71ffe1c6cd756495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 21/49] fix: match cast type names case-insensitively

---
 src/simfil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index c23fbd5..188fc55 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -997,6 +997,9 @@ public:
             raise<std::runtime_error>("'as' expected typename got "s + type.toString());
 
         auto name = std::get<std::string>(type.value);
+        std::transform(name.begin(), name.end(), name.begin(), [](unsigned char c) {
+            return static_cast<char>(std::tolower(c));
+        });
         return simplifyOrForward(p.env, [&]() -> ExprPtr {
             if (name == strings::TypenameNull)
                 return std::make_unique<ConstExpr>(Value::null());
-- 
2.43.0


From 2d4a0d0e3e9070c8c370dd0f5a2033db7b85bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:18 +0000
Subject: [PATCH 22/49] fix: let copies of a StringPool own their strings

---
 src/model/string-pool.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index dcc7bfc..49f3cb3 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -67,22 +67,21 @@ StringPool::StringPool(const StringPool& other)
         strDataToNewStrView[other.storedStrings_[i].data()] = storedStrings_[i];
     }
 
-    // Rebuild idForString_ with new string_views pointing into this->storedStrings_.
-    idForString_.clear();
-    for (const auto& [oldStrView, id] : other.idForString_) {
-        // Get the new string_view corresponding to the old string data pointer.
+    // Get the new string_view corresponding to the old string data pointer.
+    auto newStrView = [&](std::string_view const& oldStrView) {
         auto it = strDataToNewStrView.find(oldStrView.data());
-        if (it != strDataToNewStrView.end()) {
-            idForString_.emplace(it->second, id);
-        }
-        else {
+        if (it == strDataToNewStrView.end()) {
             // This should not happen if everything is consistent.
-            raise<std::runtime_error>("Failed to rebuild idForString_ in StringPool copy constructor");
+            raise<std::runtime_error>("Failed to rebuild string views in StringPool copy constructor");
         }
-    }
+        return it->second;
+    };
 
-    // Copy stringForId_.
-    stringForId_ = other.stringForId_;
+    // Rebuild idForString_ and stringForId_ with new string_views pointing into this->storedStrings_.
+    for (const auto& [oldStrView, id] : other.idForString_)
+        idForString_.emplace(newStrView(oldStrView), id);
+    for (const auto& [id, oldStrView] : other.stringForId_)
+        stringForId_.emplace(id, newStrView(oldStrView));
 
     // Copy other member variables.
     nextId_ = other.nextId_;
-- 
2.43.0


From 0c80260db692f1618f6a1dadd5b544de16045d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 23/49] fix: detect StringPool id exhaustion reliably

---
 src/model/string-pool.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 49f3cb3..104e016 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -7,6 +7,7 @@
 #include <fmt/core.h>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <mutex>
 #include <stdexcept>
 #include <locale>
@@ -109,12 +110,13 @@ StringId StringPool::emplace(std::string_view const& str)
             return it->second;
         }
 
+        if (nextId_ == std::numeric_limits<StringId>::max()) {
+            raise<std::overflow_error>("StringPool id overflow!");
+        }
+
         // Store the string to maintain ownership.
         auto& storedString = storedStrings_.emplace_back(str);
         StringId id = nextId_++;
-        if (nextId_ < id) {
-            raise<std::overflow_error>("StringPool id overflow!");
-        }
         idForString_.emplace(storedString, id);
         stringForId_.emplace(id, storedString);
         byteSize_ += static_cast<int64_t>(storedString.size());
-- 
2.43.0


From 3904539022b308fbf17543a3d6e9e05600521508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 24/49] fix: lock the StringPool while comparing it and reading
 its highest id

---
 src/model/string-pool.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 104e016..44e477b 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -148,6 +148,7 @@ std::optional<std::string_view> StringPool::resolve(const StringId& id) const
 
 StringId StringPool::highest() const
 {
+    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
     return nextId_ - 1;
 }
 
@@ -187,7 +188,7 @@ void StringPool::write(std::ostream& outputStream, const StringId offset) const
 
     // Calculate how many strings will be sent
     StringId sendStrCount = 0;
-    const auto high = highest();
+    const StringId high = nextId_ - 1;
     for (auto strId = offset; strId <= high; ++strId) {
         auto it = stringForId_.find(strId);
         if (it != stringForId_.end())
@@ -242,6 +243,12 @@ void StringPool::read(std::istream& inputStream)
 }
 
 bool StringPool::operator==(const StringPool &other) const {
+    if (this == &other)
+        return true;
+
+    std::shared_lock lockThis(stringStoreMutex_, std::defer_lock);
+    std::shared_lock lockOther(other.stringStoreMutex_, std::defer_lock);
+    std::lock(lockThis, lockOther);
     return idForString_ == other.idForString_;
 }
 
-- 
2.43.0


From b64a59a332bc70faf53983655de33140925df42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 25/49] fix: do not add looked up field names to the string
 pool

---
 src/model/nodes.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model/nodes.cpp b/src/model/nodes.cpp
index a30a6b2..7777470 100644
--- a/src/model/nodes.cpp
+++ b/src/model/nodes.cpp
@@ -249,7 +249,9 @@ Array& Array::extend(model_ptr<Array> const& other) {
 /** Model Node impls for an object. */
 
 ModelNode::Ptr Object::get(std::string_view const& fieldName) const {
-    auto fieldId = model().strings()->emplace(fieldName);
+    auto fieldId = model().strings()->get(fieldName);
+    if (fieldId == StringPool::Empty && !fieldName.empty())
+        return {};
     return get(fieldId);
 }
 
-- 
2.43.0


From 70322d7b0e8d87011606dc0402cd45e7d831380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 26/49] fix: avoid data races while evaluating a shared
 expression

---
 src/simfil.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 188fc55..97396d9 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -12,6 +12,7 @@
 #include "fmt/core.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cctype>
 #include <cstdint>
 #include <iterator>
@@ -302,16 +303,20 @@ public:
         if (!val.node)
             return res(ctx, Value::null());
 
-        if (!nameId_)
-            nameId_ = ctx.env->strings()->get(name_);
+        /* Note: Expressions may be evaluated by multiple threads at once. */
+        auto nameId = nameId_.load(std::memory_order_relaxed);
+        if (!nameId) {
+            nameId = ctx.env->strings()->get(name_);
+            nameId_.store(nameId, std::memory_order_relaxed);
+        }
 
-        if (!nameId_)
+        if (!nameId)
             /* If the field name is not in the string cache, then there
                is no field with that name. */
             return res(ctx, Value::null());
 
         /* Enter sub-node */
-        if (auto sub = val.node->get(nameId_)) {
+        if (auto sub = val.node->get(nameId)) {
             return res(ctx, Value::field(*sub));
         }
 
@@ -326,7 +331,7 @@ public:
     }
 
     std::string name_;
-    mutable StringId nameId_ = {};
+    mutable std::atomic<StringId> nameId_ = {};
 };
 
 class MultiConstExpr : public Expr
@@ -532,13 +537,17 @@ public:
 
     auto ieval(Context ctx, Value val, const ResultFn& res) const -> Result override
     {
-        if (!fn_)
-            fn_ = ctx.env->findFunction(name_);
-        if (!fn_)
+        /* Note: Expressions may be evaluated by multiple threads at once. */
+        auto fn = fn_.load(std::memory_order_relaxed);
+        if (!fn) {
+            fn = ctx.env->findFunction(name_);
+            fn_.store(fn, std::memory_order_relaxed);
+        }
+        if (!fn)
             raise<std::runtime_error>("Unknown function "s + name_);
 
         auto anyval = false;
-        auto result = fn_->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
+        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
             anyval = true;
             return res(ctx, std::move(vv));
         }));
@@ -562,7 +571,7 @@ public:
 
     std::string name_;
     std::vector<ExprPtr> args_;
-    mutable const Function* fn_;
+    mutable std::atomic<const Function*> fn_;
 };
 
 class PathExpr : public Expr
-- 
2.43.0


From d809ffee99fc72bb8f5d5b3284393046833b8e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 27/49] fix: replace the contents of array arenas when reading
 them

---
 include/simfil/model/bitsery-traits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/simfil/model/bitsery-traits.h b/include/simfil/model/bitsery-traits.h
index a2318c4..f79a7f0 100644
--- a/include/simfil/model/bitsery-traits.h
+++ b/include/simfil/model/bitsery-traits.h
@@ -61,6 +61,7 @@ struct ArrayArenaExt
     template <typename S, typename ElementType, size_t PageSize, size_t ChunkPageSize, typename Fnc>
     void deserialize(S& s, simfil::ArrayArena<ElementType, PageSize, ChunkPageSize>& arena, Fnc&& fnc) const
     {
+        arena.clear();
         simfil::ArrayIndex numArrays;
         s.value4b(numArrays);
         for (simfil::ArrayIndex i = 0; i < numArrays; ++i) {
-- 
2.43.0


From 719aa9005f4c3b4a7fbfc08c0882a0d86ab8d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 28/49] fix: support null values in JSON documents

---
 src/model/json.cpp  | 3 ++-
 src/model/model.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 06728b4..dc6afa7 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -13,7 +13,8 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
 {
     switch (j.type()) {
     case json::value_t::null:
-        return {};
+        /* The index is ignored, but an all-zero address denotes "no node". */
+        return ModelNode::Ptr::make(model.shared_from_this(), ModelNodeAddress{Model::Null, 1});
     case json::value_t::boolean:
         return model.newSmallValue(j.get<bool>());
     case json::value_t::number_float:
diff --git a/src/model/model.cpp b/src/model/model.cpp
index 85af8dc..02736ff 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -22,7 +22,7 @@ void Model::resolve(const ModelNode& n, const ResolveFn& cb) const
 {
     switch (n.addr_.column()) {
         case Null:
-            cb(ModelNodeBase(shared_from_this()));
+            cb(ModelNodeBase(shared_from_this(), n.addr_));
             break;
         case UInt16:
             cb(SmallValueNode<uint16_t>(shared_from_this(), n.addr_));
-- 
2.43.0


From e2a731d29c61370b71f670acf81f2087aaacf4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 29/49] fix: keep the value of large unsigned integers in JSON
 documents

---
 src/model/json.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index dc6afa7..415aef9 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -5,6 +5,9 @@
 
 #include <nlohmann/json.hpp>
 
+#include <cstdint>
+#include <limits>
+
 namespace simfil::json
 {
 using json = nlohmann::json;
@@ -20,7 +23,10 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
     case json::value_t::number_float:
         return model.newValue(j.get<double>());
     case json::value_t::number_unsigned:
-        return model.newValue((int64_t)j.get<uint64_t>());
+        if (auto v = j.get<uint64_t>(); v > (uint64_t)std::numeric_limits<int64_t>::max())
+            return model.newValue((double)v);
+        else
+            return model.newValue((int64_t)v);
     case json::value_t::number_integer:
         return model.newValue(j.get<int64_t>());
     case json::value_t::string:
-- 
2.43.0


From a403a6bc34cf7a26c817d893c393962aaef0fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 30/49] fix: make copying and assigning transient objects safe

---
 include/simfil/transient.h | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/include/simfil/transient.h b/include/simfil/transient.h
index 03f27de..c224f17 100644
--- a/include/simfil/transient.h
+++ b/include/simfil/transient.h
@@ -4,6 +4,7 @@
 
 #include <string>
 #include <string_view>
+#include <utility>
 
 namespace simfil
 {
@@ -50,32 +51,23 @@ struct TransientObject
     void* data = nullptr;
 
     TransientObject(const TransientObject& other)
-        : meta(other.meta), data(meta->copy(other.data))
+        : meta(other.meta), data(meta ? meta->copy(other.data) : nullptr)
     {}
 
-    auto operator=(const TransientObject& other)
+    auto operator=(const TransientObject& other) -> TransientObject&
     {
-        meta->deinit(data);
-        meta = other.meta;
-        data = meta->copy(other.data);
-        return *this;
+        return *this = TransientObject(other);
     }
 
-    TransientObject(TransientObject&& other)
-        : meta(std::move(other.meta))
-        , data(std::move(other.data))
-    {
-        other.meta = nullptr;
-        other.data = nullptr;
-    }
+    TransientObject(TransientObject&& other) noexcept
+        : meta(std::exchange(other.meta, nullptr))
+        , data(std::exchange(other.data, nullptr))
+    {}
 
-    auto operator=(TransientObject&& other)
+    auto operator=(TransientObject&& other) noexcept -> TransientObject&
     {
-        meta->deinit(data);
-        meta = std::move(other.meta);
-        data = std::move(other.data);
-        other.meta = nullptr;
-        other.data = nullptr;
+        std::swap(meta, other.meta);
+        std::swap(data, other.data);
         return *this;
     }
 
-- 
2.43.0


From eea6bc8cbe660ee4a7c9bcedbc02c9d02bd09cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 31/49] fix: lock the array arena while iterating in
 thread-safe mode

---
 include/simfil/model/arena.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/simfil/model/arena.h b/include/simfil/model/arena.h
index a9994fb..1a488f7 100644
--- a/include/simfil/model/arena.h
+++ b/include/simfil/model/arena.h
@@ -291,9 +291,9 @@ public:
     const_iterator end(ArrayIndex const& a) const { return const_iterator(*this, a, size(a)); }
 
     ArrayArenaIterator begin() { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
     ArrayArenaIterator begin() const { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
 
     ArrayRange range(ArrayIndex const& array) {return ArrayRange(begin(array), end(array));}
 
@@ -302,26 +302,38 @@ public:
     template <typename Func>
     void iterate(ArrayIndex const& a, Func&& lambda)
     {
-        Chunk const* current = &heads_[a];
+        // Note: In thread-safe mode, the lock must not be held while calling the
+        // lambda, which may use the arena itself.
+        auto locked = [this](auto&& fn) -> decltype(auto) {
+            #ifdef ARRAY_ARENA_THREAD_SAFE
+            std::shared_lock guard(lock_);
+            #endif
+            return fn();
+        };
+
+        Chunk const* current = locked([&, this] { return &heads_[a]; });
         size_t globalIndex = 0;
         while (current != nullptr)
         {
             for (size_t i = 0; i < current->size && i < current->capacity; ++i)
             {
+                ElementType_& elem = locked([&, this]() -> ElementType_& { return data_[current->offset + i]; });
                 if constexpr (std::is_invocable_r_v<bool, Func, ElementType_&>) {
                     // If lambda returns bool, break if it returns false
-                    if (!lambda(data_[current->offset + i]))
+                    if (!lambda(elem))
                         return;
                 }
                 else if constexpr (std::is_invocable_v<Func, ElementType_&, size_t>) {
                     // If lambda takes two arguments, pass the current index
-                    lambda(data_[current->offset + i], globalIndex);
+                    lambda(elem, globalIndex);
                 }
                 else
-                    lambda(data_[current->offset + i]);
+                    lambda(elem);
                 ++globalIndex;
             }
-            current = (current->next != InvalidArrayIndex) ? &continuations_[current->next] : nullptr;
+            current = locked([&, this]() -> Chunk const* {
+                return (current->next != InvalidArrayIndex) ? &continuations_[current->next] : nullptr;
+            });
         }
     }
 
-- 
2.43.0


From 7310030c08a435d993d0e28d7780557f067e1a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 32/49] fix: report evaluation errors in the repl

---
 repl/repl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index 9a94857..dc99dc1 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -14,6 +14,7 @@
 #include <atomic>
 #include <fstream>
 #include <chrono>
+#include <exception>
 #include <optional>
 #include <iostream>
 
@@ -121,6 +122,7 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
         n_threads = 1;
 
     auto idx = std::atomic_size_t(0);
+    auto errors = std::vector<std::exception_ptr>(result.size());
     auto threads = std::vector<std::thread>();
     threads.reserve(n_threads);
     for (auto i = 0; i < n_threads; ++i) {
@@ -130,6 +132,7 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
                 try {
                     result[next] = simfil::eval(env, expr, *model->root(next));
                 } catch (...) {
+                    errors[next] = std::current_exception();
                     return;
                 }
             }
@@ -140,6 +143,10 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
         if (thread.joinable())
             thread.join();
 
+    for (auto& error : errors)
+        if (error)
+            std::rethrow_exception(error);
+
     return result;
 }
 
-- 
2.43.0


From 759750909b483130920495d2b45452d5001936db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 33/49] fix: evaluate on a null root in a repl without a
 document

---
 repl/repl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index dc99dc1..b2d368d 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -110,7 +110,7 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
     result.resize(std::max<size_t>(1, model->numRoots()));
 
     if (!model->numRoots()) {
-        model->addRoot(simfil::ModelNode::Ptr());
+        model->addRoot(simfil::ModelNode::Ptr::make(model, simfil::ModelNodeAddress{simfil::Model::Null, 1}));
         result[0] = simfil::eval(env, expr, *model->root(0));
         return result;
     }
-- 
2.43.0


From 74d9484a83fb51c67274cb1a9763c9c9bf183519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 34/49] fix: leave the repl at the end of its input

---
 repl/repl.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index b2d368d..70b4458 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -87,19 +87,23 @@ char** command_completion(const char *text, int start, int end)
 }
 #endif
 
-static std::string input(const char* prompt = "> ")
+/* Returns nullopt at the end of the input. */
+static std::optional<std::string> input(const char* prompt = "> ")
 {
     std::string r;
 #ifdef WITH_READLINE
     auto buf = readline(prompt);
-    if (buf && buf[0]) {
+    if (!buf)
+        return std::nullopt;
+    if (buf[0]) {
         r = buf;
         add_history(buf);
     }
     free(buf);
 #else
     std::cout << prompt << std::flush;
-    std::getline(std::cin, r);
+    if (!std::getline(std::cin, r))
+        return std::nullopt;
 #endif
     return r;
 }
@@ -211,8 +215,8 @@ int main(int argc, char *argv[])
         }
     }
 
-    for (;;) {
-        auto cmd = input("> ");
+    while (auto line = input("> ")) {
+        auto& cmd = *line;
         if (cmd.empty())
             continue;
         if (cmd[0] == '/') {
-- 
2.43.0


From 4833c1b4872c92317ff6ff104a0a8e947a6440f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 35/49] fix: reject a trailing -D in the repl

---
 repl/repl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index 70b4458..5e233fb 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -197,6 +197,10 @@ int main(int argc, char *argv[])
             case 'D':
                 arg.remove_prefix(2);
                 if (arg.empty()) {
+                    if (!argv[1]) {
+                        std::cerr << "Missing definition after -D\n";
+                        return 1;
+                    }
                     arg = *++argv;
                 }
                 if (auto pos = arg.find("="); (pos != std::string::npos) && (pos > 0)) {
-- 
2.43.0


From 43c23ab19e4cba193134b3057b851f4f9b6c4926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 36/49] fix: reject incomplete and trailing garbage in number
 exponents

---
 src/token.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index d219ed2..9554783 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -316,8 +316,10 @@ std::optional<Token> scanNumber(Scanner& s)
             s.pop();
 
             const auto neg = s.match("-", Scanner::Skip);
-            if (!neg && s.at(0) == '+' && isdigit(s.at(1)))
-                s.pop();
+            if (!neg)
+                s.match("+", Scanner::Skip);
+            if (!isdigit(s.at(0)))
+                s.fail("Expected at least one exponent digit");
             double exp = 0;
             while (isdigit(s.at(0))) {
                 exp *= 10.;
@@ -370,11 +372,12 @@ std::optional<Token> scanNumber(Scanner& s)
             return Token(Token::FLOAT, f, begin, s.pos());
         }
 
-        /* SCI notation results in float if exponent != 0 (=1) */
-        if (auto sci = parseSciSuffix(s); sci != 1)
-            return Token(Token::FLOAT, f * sci, begin, s.pos());
+        /* SCI notation (base 10 only) results in float if exponent != 0 (=1) */
+        const auto sci = base == 10 ? parseSciSuffix(s) : 1.0;
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
+        if (sci != 1)
+            return Token(Token::FLOAT, f * sci, begin, s.pos());
 
         /* Binary and hexadecimal numbers can set all 64 bits */
         if (overflow || (base == 10 && n > (uint64_t)std::numeric_limits<int64_t>::max()))
-- 
2.43.0


From 305ea3b554e34d8aa1e0681f0544c57eab2853a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 37/49] fix: match literal prefixes case-insensitively

---
 src/token.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 9554783..7040a54 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -225,15 +225,14 @@ std::optional<Token> scanWord(Scanner& s)
 
 std::optional<Token> scanStringLiteral(Scanner& s)
 {
+    const auto isQuote = [](auto c) { return c == '"' || c == '\''; };
+    const auto r = tolower(s.at(0)) == 'r';
+
     // Test for raw strings
-    const auto raw =
-        s.match("r'") || s.match("R'") ||
-        s.match("r\"") || s.match("R\"");
+    const auto raw = r && isQuote(s.at(1));
 
     // Test for regexp
-    const auto regexp =
-        s.match("re'") || s.match("RE'") ||
-        s.match("re\"") || s.match("RE\"");
+    const auto regexp = r && tolower(s.at(1)) == 'e' && isQuote(s.at(2));
 
     if (raw)
         s.skip(1);
@@ -336,9 +335,9 @@ std::optional<Token> scanNumber(Scanner& s)
 
     const auto begin = s.pos();
     auto base = 10;
-    if (s.match("0x", Scanner::Skip))
+    if (s.match("0x", Scanner::Skip) || s.match("0X", Scanner::Skip))
         base = 16;
-    else if (s.match("0b", Scanner::Skip))
+    else if (s.match("0b", Scanner::Skip) || s.match("0B", Scanner::Skip))
         base = 2;
 
     if ((base == 16 && !isxdigit(s.at(0))) || (base == 2 && !isdigit(s.at(0))))
-- 
2.43.0


From 9804074646642428b868615bf630728b2b4dd982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 38/49] fix: include the prefix in the location of string
 literals

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 7040a54..42c0255 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -234,6 +234,7 @@ std::optional<Token> scanStringLiteral(Scanner& s)
     // Test for regexp
     const auto regexp = r && tolower(s.at(1)) == 'e' && isQuote(s.at(2));
 
+    const auto begin = s.pos();
     if (raw)
         s.skip(1);
     else if (regexp)
@@ -241,7 +242,6 @@ std::optional<Token> scanStringLiteral(Scanner& s)
 
     const auto quote = s.at(0);
     if (quote == '"' || quote == '\'') {
-        auto begin = s.pos();
         s.skip();
 
         std::string text;
-- 
2.43.0


From ff8c5837bd7ff8c972c15b5e0c7a519528bc598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 39/49] fix: parse upper-case words left of a path operator as
 fields

---
 src/simfil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 97396d9..773c01b 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1290,8 +1290,8 @@ class WordParser : public PrefixParselet
             auto arguments = p.parseList(Token::RPAREN);
             return simplifyOrForward(p.env, std::make_unique<CallExpression>(word, std::move(arguments)));
         } else if (!p.ctx.inPath) {
-            /* Parse Symbols (words in upper-case) */
-            if (isSymbolWord(word)) {
+            /* Parse Symbols (words in upper-case), unless part of a path */
+            if (isSymbolWord(word) && !p.match(Token::DOT)) {
                 return std::make_unique<ConstExpr>(Value::make<std::string>(std::move(word)));
             }
             /* Constant */
-- 
2.43.0


From 31674630d01354148fb9b4417ddf074d750e6b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 40/49] fix: return null for '**' on values without a node

'a{**}' on a missing field 'a' raised 'dereference null model_ptr'.
---
 src/simfil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 773c01b..154fcf3 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -201,6 +201,9 @@ public:
         if (ctx.phase == Context::Phase::Compilation)
             return ores(ctx, Value::undef());
 
+        if (!val.node)
+            return ores(ctx, Value::null());
+
         CountedResultFn<const ResultFn&> res(ores, ctx);
 
         struct Iterate
-- 
2.43.0


From ce9db99c81dd40ff6786a2c3655e6ef97f3a1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 41/49] fix: do not limit select() without a length

The limit that stands for 'all' was reached for start indices near the
smallest integer.
---
 src/function.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 3c1803f..d46d882 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -542,9 +542,9 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
         return res(ctx, Value::undef());
 
     auto iidx = idx.as<ValueType::Int>();
-    auto icnt = cnt.as<ValueType::Int>();
-    if (icnt <= 0)
-        icnt = std::numeric_limits<int64_t>::max();
+    auto icnt = static_cast<uint64_t>(cnt.as<ValueType::Int>());
+    if (cnt.as<ValueType::Int>() <= 0)
+        icnt = std::numeric_limits<uint64_t>::max();
 
     /* Note: Stopping the evaluation of the input at the end of the
      * selection must not stop the evaluation of our caller. */
@@ -554,7 +554,7 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
                 return result = res(ctx, std::move(vv));
-        if (n >= iidx && (uint64_t)n - (uint64_t)iidx >= (uint64_t)icnt)
+        if (n >= iidx && (uint64_t)n - (uint64_t)iidx >= icnt)
             return Result::Stop;
         if (n >= iidx)
             return result = res(ctx, std::move(vv));
-- 
2.43.0


From a4cebeac590be0bf38155547bd4fb34d0ede452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 42/49] fix: keep the model unchanged when setStrings() fails

---
 src/model/model.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 02736ff..985604f 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -3,6 +3,7 @@
 #include "simfil/model/bitsery-traits.h"
 #include "simfil/model/nodes.h"
 
+#include <map>
 #include <memory>
 #include <type_traits>
 #include <variant>
@@ -333,15 +334,30 @@ void ModelPool::setStrings(std::shared_ptr<StringPool> const& strings)
         raise<std::runtime_error>("Attempt to call ModelPool::setStrings(nullptr)!");
 
     auto oldStrings = impl_->strings_;
-    impl_->strings_ = strings;
-    if (!oldStrings || *strings == *oldStrings)
+    if (!oldStrings || *strings == *oldStrings) {
+        impl_->strings_ = strings;
         return;
+    }
+
+    // Look up all names in the new dictionary first: If that fails (the
+    // dictionary may overflow), the model must stay as it is.
+    std::map<StringId, StringId> translation;
+    for (auto memberArray : impl_->columns_.objectMemberArrays_) {
+        for (auto const& member : memberArray) {
+            if (translation.count(member.name_))
+                continue;
+            if (auto resolvedName = oldStrings->resolve(member.name_))
+                translation[member.name_] = strings->emplace(*resolvedName);
+        }
+    }
 
     // Translate object field IDs to the new dictionary.
+    impl_->strings_ = strings;
     for (auto memberArray : impl_->columns_.objectMemberArrays_) {
         for (auto& member : memberArray) {
-            if (auto resolvedName = oldStrings->resolve(member.name_))
-                member.name_ = strings->emplace(*resolvedName);
+            auto it = translation.find(member.name_);
+            if (it != translation.end())
+                member.name_ = it->second;
         }
     }
 }
-- 
2.43.0


From c6b45d9775ddb345c7c34aca69a8fba46204c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 43/49] fix: string pool keeps half an entry when the memory
 runs out while a name is added

---
 src/model/string-pool.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 44e477b..038de55 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -116,9 +116,18 @@ StringId StringPool::emplace(std::string_view const& str)
 
         // Store the string to maintain ownership.
         auto& storedString = storedStrings_.emplace_back(str);
-        StringId id = nextId_++;
-        idForString_.emplace(storedString, id);
-        stringForId_.emplace(id, storedString);
+        StringId id = nextId_;
+        try {
+            idForString_.emplace(storedString, id);
+            stringForId_.emplace(id, storedString);
+        }
+        catch (...) {
+            // Do not keep half an entry if the memory runs out.
+            idForString_.erase(storedString);
+            storedStrings_.pop_back();
+            throw;
+        }
+        ++nextId_;
         byteSize_ += static_cast<int64_t>(storedString.size());
         ++cacheMisses_;
 
@@ -229,7 +238,14 @@ void StringPool::read(std::istream& inputStream)
         // Insert string into the pool
         auto [it, insertionTookPlace] = idForString_.try_emplace(stringValue, stringId);
         if (insertionTookPlace) {
-            stringForId_.try_emplace(stringId, stringValue);
+            try {
+                stringForId_.try_emplace(stringId, stringValue);
+            }
+            catch (...) {
+                // Do not keep half an entry if the memory runs out.
+                idForString_.erase(it);
+                throw;
+            }
             byteSize_ += static_cast<int64_t>(stringValue.size());
             nextId_ = std::max<StringId>(nextId_, stringId + 1);
         }
-- 
2.43.0


From 625994a9ea10beae9aa8d54a9d6e2934bc5c8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 44/49] fix: string pool grows with every name that it reads
 although it knows it

---
 src/model/string-pool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 038de55..b21043e 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -249,6 +249,10 @@ void StringPool::read(std::istream& inputStream)
             byteSize_ += static_cast<int64_t>(stringValue.size());
             nextId_ = std::max<StringId>(nextId_, stringId + 1);
         }
+        else {
+            // The string is known already.
+            storedStrings_.pop_back();
+        }
     }
 
     if (s.adapter().error() != bitsery::ReaderError::NoError) {
-- 
2.43.0


From 9d0ffb34d09b1a0660c6ebbbcc57cd2bf8a12020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 45/49] fix: split copies the whole text for each of its pieces

Splitting took time in proportion to the square of the text's length.
---
 src/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index d46d882..65f76ae 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -471,14 +471,14 @@ _Container split(std::string_view what,
     auto next = [&]() {
         if ((end = what.find(at, begin)) != std::string::npos) {
             if (end - begin || !removeEmpty)
-                *out++ = ResultType(what).substr(begin, end - begin);
+                *out++ = ResultType(what.substr(begin, end - begin));
 
             begin = end + at.size();
             return true;
         }
 
         if (what.size() - begin || !removeEmpty)
-            *out++ = ResultType(what).substr(begin);
+            *out++ = ResultType(what.substr(begin));
 
         return false;
     };
-- 
2.43.0


From af9d5b3ff7334309849614b81c6d7f4abaea15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 46/49] fix: floats are rendered in the locale of the process

---
 include/simfil/operator.h |  6 ++++++
 include/simfil/value.h    |  5 ++++-
 src/token.cpp             | 10 ++++++++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index fe344db..cdcaf90 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -299,6 +299,12 @@ struct OperatorAsString
         return ""s;
     }
 
+    auto operator()(double v) const
+    {
+        // Unlike std::to_string, this does not depend on the locale
+        return fmt::format("{:f}", v);
+    }
+
     template <class Type>
     auto operator()(Type v) const
     {
diff --git a/include/simfil/value.h b/include/simfil/value.h
index 7ba6344..9129a2c 100644
--- a/include/simfil/value.h
+++ b/include/simfil/value.h
@@ -8,6 +8,8 @@
 #include "model/nodes.h"
 #include "transient.h"
 
+#include <fmt/format.h>
+
 namespace simfil
 {
 
@@ -49,7 +51,8 @@ struct ValueToString
 
     auto operator()(double v) const
     {
-        return std::to_string(v);
+        // Unlike std::to_string, this does not depend on the locale
+        return fmt::format("{:f}", v);
     }
 
     auto operator()(const std::string& v) const
diff --git a/src/token.cpp b/src/token.cpp
index 42c0255..5b4a9e6 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -9,7 +9,9 @@
 #include <cstdint>
 #include <cassert>
 #include <limits>
+#include <locale>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string_view>
 #include <optional>
@@ -40,8 +42,12 @@ auto Token::toString() const -> std::string
     switch (type) {
     case Token::INT:
         return std::to_string(std::get<int64_t>(value));
-    case Token::FLOAT:
-        return std::to_string(std::get<double>(value));
+    case Token::FLOAT: {
+        std::ostringstream out;
+        out.imbue(std::locale::classic());
+        out << std::fixed << std::get<double>(value);
+        return out.str();
+    }
     case Token::STRING:
         return "'"s + std::get<std::string>(value) + "'"s;
     case Token::REGEXP:
-- 
2.43.0


From b16d916bcce4e5bb4103cb2f1e181282312dcac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 47/49] fix: keywords, names and regular expressions depend on
 the locale of the process

---
 include/simfil/environment.h |  4 +++-
 src/model/string-pool.cpp    |  4 ++--
 src/simfil.cpp               | 10 +++++-----
 src/token.cpp                | 22 ++++++++++++++++++++--
 src/types.cpp                |  3 ++-
 5 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/simfil/environment.h b/include/simfil/environment.h
index b8ddd65..e0d8e1c 100644
--- a/include/simfil/environment.h
+++ b/include/simfil/environment.h
@@ -11,6 +11,7 @@
 #include <vector>
 #include <chrono>
 #include <functional>
+#include <locale>
 #include <mutex>
 #include <string_view>
 
@@ -28,7 +29,8 @@ struct CaseInsensitiveCompare
     auto operator()(const std::string_view& l, const std::string_view& r) const -> bool
     {
         return std::lexicographical_compare(l.begin(), l.end(), r.begin(), r.end(), [](auto lc, auto rc) {
-            return tolower(lc) < tolower(rc);
+            const auto& locale = std::locale::classic();
+            return std::tolower(lc, locale) < std::tolower(rc, locale);
         });
     }
 };
diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index b21043e..e4fb68e 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -282,7 +282,7 @@ size_t detail::CaseInsensitiveHash::operator()(const std::string_view& str) cons
     constexpr size_t prime = sizeof(size_t) == 4 ? 16777619U : 1099511628211ULL;
 
     size_t hash = offsetBasis;
-    std::locale locale{};
+    const auto& locale = std::locale::classic();
 
     for (auto c : str) {
         c = std::tolower(c, locale);
@@ -297,7 +297,7 @@ bool detail::CaseInsensitiveEqual::operator()(
     const std::string_view& lhs,
     const std::string_view& rhs) const
 {
-    std::locale locale{};
+    const auto& locale = std::locale::classic();
     return std::equal(
         lhs.begin(),
         lhs.end(),
diff --git a/src/simfil.cpp b/src/simfil.cpp
index 154fcf3..3c166be 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -13,7 +13,7 @@
 
 #include <algorithm>
 #include <atomic>
-#include <cctype>
+#include <locale>
 #include <cstdint>
 #include <iterator>
 #include <memory>
@@ -107,11 +107,11 @@ static auto isSymbolWord(std::string_view sv) -> bool
 {
     auto numUpperCaseLetters = 0;
     return std::all_of(sv.begin(), sv.end(), [&numUpperCaseLetters](auto c) {
-       if (std::isupper(c)) {
+       if (std::isupper(c, std::locale::classic())) {
            ++numUpperCaseLetters;
            return true;
        }
-       return c == '_' || std::isdigit(c) != 0;
+       return c == '_' || std::isdigit(c, std::locale::classic());
     }) && numUpperCaseLetters > 0;
 }
 
@@ -1009,8 +1009,8 @@ public:
             raise<std::runtime_error>("'as' expected typename got "s + type.toString());
 
         auto name = std::get<std::string>(type.value);
-        std::transform(name.begin(), name.end(), name.begin(), [](unsigned char c) {
-            return static_cast<char>(std::tolower(c));
+        std::transform(name.begin(), name.end(), name.begin(), [](char c) {
+            return std::tolower(c, std::locale::classic());
         });
         return simplifyOrForward(p.env, [&]() -> ExprPtr {
             if (name == strings::TypenameNull)
diff --git a/src/token.cpp b/src/token.cpp
index 5b4a9e6..776568e 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -3,7 +3,6 @@
 #include "simfil/token.h"
 #include "simfil/exception-handler.h"
 
-#include <cctype>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
@@ -22,10 +21,23 @@
 namespace
 {
 
+/** Character classes of the language. Those of <cctype> depend on the locale of the process. */
+namespace ascii
+{
+
+constexpr bool isdigit(int c) { return '0' <= c && c <= '9'; }
+constexpr bool isxdigit(int c) { return isdigit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'); }
+constexpr bool isalpha(int c) { return ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'); }
+constexpr bool isalnum(int c) { return isalpha(c) || isdigit(c); }
+constexpr bool isspace(int c) { return c == ' ' || ('\t' <= c && c <= '\r'); }
+constexpr int tolower(int c) { return 'A' <= c && c <= 'Z' ? c - 'A' + 'a' : c; }
+
+}
+
 std::string downcase(std::string s)
 {
     std::transform(s.begin(), s.end(), s.begin(), [](auto c) {
-        return tolower(c);
+        return ascii::tolower(c);
     });
     return s;
 }
@@ -36,6 +48,12 @@ namespace simfil
 {
 
 using namespace std::string_literals;
+using ascii::isalnum;
+using ascii::isalpha;
+using ascii::isdigit;
+using ascii::isspace;
+using ascii::isxdigit;
+using ascii::tolower;
 
 auto Token::toString() const -> std::string
 {
diff --git a/src/types.cpp b/src/types.cpp
index 4c086c1..211bc7f 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -93,7 +93,8 @@ auto ReType::make(std::string_view expr) -> Value
     auto obj = TransientObject(&ReType::Type);
     auto re = get(obj);
     re->str = expr;
-    re->re = std::regex(std::string(expr));
+    re->re.imbue(std::locale::classic());
+    re->re.assign(std::string(expr));
 
     return Value(ValueType::TransientObject, std::move(obj));
 }
-- 
2.43.0


From c5c7844f48aff7e130cdb77e12e420cd29ac4df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 48/49] fix: texts are converted to float in the locale of the
 process

---
 include/simfil/operator.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index cdcaf90..ee3d60f 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -5,7 +5,10 @@
 #include "simfil/value.h"
 #include "exception-handler.h"
 
+#include <algorithm>
 #include <cstdint>
+#include <cstdio>
+#include <cstring>
 #include <string_view>
 #include <string>
 
@@ -259,7 +262,7 @@ struct OperatorAsFloat
     auto operator()(const std::string& v) const
     {
         double out = 0;
-        if (std::sscanf(v.c_str(), "%lf", &out) == 1)
+        if (std::sscanf(withLocalPoint(v).c_str(), "%lf", &out) == 1)
             return out;
         return 0.0;
     }
@@ -270,6 +273,21 @@ struct OperatorAsFloat
     }
 
     NULL_AS((double)0)
+
+private:
+    /// sscanf reads the decimal point of the process's locale only.
+    static auto withLocalPoint(std::string v) -> std::string
+    {
+        char sample[16] = {};
+        std::snprintf(sample, sizeof(sample), "%.1f", 0.5);
+        const auto point = std::string(sample + 1, std::strlen(sample) - 2);
+        if (point != ".") {
+            v.resize(std::min(v.find(point), v.size()));
+            if (auto pos = v.find('.'); pos != std::string::npos)
+                v.replace(pos, 1, point);
+        }
+        return v;
+    }
 };
 
 struct OperatorAsString
-- 
2.43.0


From 8f7a80d24767e1058836444344d3e37d09e6cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 49/49] fix: split, select and trace silently ignore surplus
 arguments

---
 src/function.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/function.cpp b/src/function.cpp
index 65f76ae..e85c698 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -287,6 +287,9 @@ auto TraceFn::ident() const -> const FnInfo&
 
 auto TraceFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const ResultFn& res) const -> Result
 {
+    if (args.size() > 3)
+        raise<std::runtime_error>("trace: Expected at most 3 arguments; got "s + std::to_string(args.size()));
+
     Value name  = Value::undef();
     Value limit = Value::undef();
 
@@ -491,6 +494,9 @@ _Container split(std::string_view what,
 
 auto SplitFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const ResultFn& res) const -> Result
 {
+    if (args.size() > 3)
+        raise<std::runtime_error>("split: Expected at most 3 arguments; got "s + std::to_string(args.size()));
+
     Value str = Value::undef();
     Value sep = Value::undef();
     Value keepEmpty = Value::undef();
@@ -529,6 +535,9 @@ auto SelectFn::ident() const -> const FnInfo&
 
 auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const ResultFn& res) const -> Result
 {
+    if (args.size() > 3)
+        raise<std::runtime_error>("select: Expected at most 3 arguments; got "s + std::to_string(args.size()));
+
     Value idx = Value::undef();
     Value cnt = Value::undef();
 
-- 
2.43.0

