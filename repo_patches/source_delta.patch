From 038552f482c791784751273ff833450278fcaea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 01/27] fix: extend integers by the signedness of the source
 type

NumericTypeConvert passed the signedness of the destination to CreateIntCast, so
widening an unsigned value to a wider signed type sign-extended it
(200u8 + 1i16 was -55) and widening a signed value to a wider unsigned type
zero-extended it.
---
 src/codegen/codegen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.cc b/src/codegen/codegen.cc
index 4ab4f88..a29b732 100644
--- a/src/codegen/codegen.cc
+++ b/src/codegen/codegen.cc
@@ -98,7 +98,7 @@ Status CodeGen::NumericTypeConvert(IRCodeGenContext &ctx, ValueType from, ValueT
     if (TypeHelper::IsIntegerType(to)) {
       *value =
           ctx.builder.CreateIntCast(*value, llvm::IntegerType::get(ctx.context, TypeHelper::GetBitWidthFromType(to)),
-                                    TypeHelper::IsSignedType(to));
+                                    TypeHelper::IsSignedType(from));
       return Status::OK();
     }
     if (TypeHelper::IsFloatType(to)) {
-- 
2.43.0


From f668bf8d474332845a8101c1defabd2bec674d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 02/27] fix: do not truncate the exponent of pow(f64|i32|i64,
 i32) to 16 bits

pow(x, 65538) computed x**2 and pow(x, 40000) computed x**-25536.
---
 src/function/math_function_init.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/function/math_function_init.cc b/src/function/math_function_init.cc
index e95bea8..d00c39e 100644
--- a/src/function/math_function_init.cc
+++ b/src/function/math_function_init.cc
@@ -86,9 +86,6 @@ llvm::Value *CallBuiltinPowIFunction(const FunctionSignature &sign,
   if (value->getType()->isIntegerTy()) {
     (void)CodeGen::NumericTypeConvert(ctx, sign.GetParamTypes().at(0), ValueType::kF64, &value);
   }
-  if (value->getType()->isDoubleTy()) {
-    (void)CodeGen::NumericTypeConvert(ctx, ValueType::kI32, ValueType::kI16, &power);
-  }
   llvm::Function *func =
       llvm::Intrinsic::getDeclaration(&ctx.module, llvm::Intrinsic::powi, {value->getType(), power->getType()});
   return ctx.builder.CreateCall(func, {value, power}, "powi");
-- 
2.43.0


From 66b674722001d960fc904ae66d8fbffea5cc889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 03/27] fix: report out-of-range literals as parse errors

std::stoull/stof/stod threw std::out_of_range through Compile for literals that
do not fit, and also for denormal floats, which are representable.
token.cc regenerated.
---
 athena/token.cc | 243 +++++++++++++++++++++++++++---------------------
 athena/token.ll |  60 +++++++++---
 2 files changed, 181 insertions(+), 122 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 7eae7a9..7417e72 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -1,6 +1,6 @@
-#line 1 "token.cc"
+#line 2 "token.cc"
 
-#line 3 "token.cc"
+#line 4 "token.cc"
 
 #define  YY_INT_ALIGNED short int
 
@@ -257,7 +257,6 @@ typedef int16_t flex_int16_t;
 typedef uint16_t flex_uint16_t;
 typedef int32_t flex_int32_t;
 typedef uint32_t flex_uint32_t;
-typedef uint64_t flex_uint64_t;
 #else
 typedef signed char flex_int8_t;
 typedef short int flex_int16_t;
@@ -422,7 +421,7 @@ struct yy_buffer_state
 	/* Number of characters read into yy_ch_buf, not including EOB
 	 * characters.
 	 */
-	yy_size_t yy_n_chars;
+	int yy_n_chars;
 
 	/* Whether we "own" the buffer - i.e., we know we created it,
 	 * and can realloc() it to grow it, and should free() it to
@@ -499,7 +498,7 @@ static void yy_init_buffer ( YY_BUFFER_STATE b, FILE *file , yyscan_t yyscanner
 
 YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size , yyscan_t yyscanner );
 YY_BUFFER_STATE yy_scan_string ( const char *yy_str , yyscan_t yyscanner );
-YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, yy_size_t len , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len , yyscan_t yyscanner );
 
 void *yyalloc ( yy_size_t , yyscan_t yyscanner );
 void *yyrealloc ( void *, yy_size_t , yyscan_t yyscanner );
@@ -546,7 +545,7 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
  */
 #define YY_DO_BEFORE_ACTION \
 	yyg->yytext_ptr = yy_bp; \
-	yyleng = (yy_size_t) (yy_cp - yy_bp); \
+	yyleng = (int) (yy_cp - yy_bp); \
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
@@ -745,10 +744,40 @@ static const flex_int16_t yy_chk[277] =
 #include "parser.hh"
 #include <cerrno>
 #include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
-#line 750 "token.cc"
-#line 15 "token.ll"
+
+namespace {
+
+uint64_t ParseInt(const char *text, const athena::location &loc) {
+  errno = 0;
+  uint64_t value = std::strtoull(text, nullptr, 10);
+  if (errno == ERANGE) {
+    throw athena::Parser::syntax_error(loc, std::string("integer literal '") + text + "' is out of range");
+  }
+  return value;
+}
+
+float ParseF32(const char *text, const athena::location &loc) {
+  float value = std::strtof(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, std::string("float literal '") + text + "' is out of range");
+  }
+  return value;
+}
+
+double ParseF64(const char *text, const athena::location &loc) {
+  double value = std::strtod(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, std::string("float literal '") + text + "' is out of range");
+  }
+  return value;
+}
+
+}  // namespace
+#line 780 "token.cc"
+#line 45 "token.ll"
 #if defined __clang__
 # define CLANG_VERSION (__clang_major__ * 100 + __clang_minor__)
 #endif
@@ -818,13 +847,13 @@ static const flex_int16_t yy_chk[277] =
 #if defined GCC_VERSION && 900 <= GCC_VERSION
 # pragma GCC diagnostic ignored "-Wuseless-cast"
 #endif
-#line 821 "token.cc"
+#line 851 "token.cc"
 #define YY_NO_INPUT 1
-#line 94 "token.ll"
+#line 124 "token.ll"
   // Code run each time a pattern is matched.
   # define YY_USER_ACTION  loc.columns (yyleng);
-#line 826 "token.cc"
-#line 827 "token.cc"
+#line 856 "token.cc"
+#line 857 "token.cc"
 
 #define INITIAL 0
 
@@ -853,8 +882,8 @@ struct yyguts_t
     size_t yy_buffer_stack_max; /**< capacity of stack. */
     YY_BUFFER_STATE * yy_buffer_stack; /**< Stack as an array. */
     char yy_hold_char;
-    yy_size_t yy_n_chars;
-    yy_size_t yyleng_r;
+    int yy_n_chars;
+    int yyleng_r;
     char *yy_c_buf_p;
     int yy_init;
     int yy_start;
@@ -901,7 +930,7 @@ FILE *yyget_out ( yyscan_t yyscanner );
 
 void yyset_out  ( FILE * _out_str , yyscan_t yyscanner );
 
-			yy_size_t yyget_leng ( yyscan_t yyscanner );
+			int yyget_leng ( yyscan_t yyscanner );
 
 char *yyget_text ( yyscan_t yyscanner );
 
@@ -972,7 +1001,7 @@ static int input ( yyscan_t yyscanner );
 	if ( YY_CURRENT_BUFFER_LVALUE->yy_is_interactive ) \
 		{ \
 		int c = '*'; \
-		yy_size_t n; \
+		int n; \
 		for ( n = 0; n < max_size && \
 			     (c = getc( yyin )) != EOF && c != '\n'; ++n ) \
 			buf[n] = (char) c; \
@@ -1082,16 +1111,16 @@ YY_DECL
 		}
 
 	{
-#line 97 "token.ll"
+#line 127 "token.ll"
 
 
-#line 100 "token.ll"
+#line 130 "token.ll"
   // A handy shortcut to the location held by the Parser.
   athena::location& loc = builder.GetLocation();
   // Code run each time yylex is called.
   loc.step ();
 
-#line 1094 "token.cc"
+#line 1124 "token.cc"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1146,24 +1175,24 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 105 "token.ll"
+#line 135 "token.ll"
 loc.step ();
 	YY_BREAK
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 106 "token.ll"
+#line 136 "token.ll"
 loc.lines (yyleng); loc.step ();
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 108 "token.ll"
+#line 138 "token.ll"
 loc.step ();
 	YY_BREAK
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 109 "token.ll"
+#line 139 "token.ll"
 {
                                 for (int i = 0; i < yyleng; ++i) {
                                   if (yytext[i] == '\n') loc.lines(1);
@@ -1173,306 +1202,306 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 116 "token.ll"
+#line 146 "token.ll"
 return  athena::Parser::make_LET                         (loc);
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 117 "token.ll"
+#line 147 "token.ll"
 return  athena::Parser::make_WHEN                        (loc);
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 118 "token.ll"
+#line 148 "token.ll"
 return  athena::Parser::make_IF                          (loc);
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 119 "token.ll"
+#line 149 "token.ll"
 return  athena::Parser::make_ELIF                        (loc);
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 120 "token.ll"
+#line 150 "token.ll"
 return  athena::Parser::make_ELSE                        (loc);
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 121 "token.ll"
+#line 151 "token.ll"
 return  athena::Parser::make_SWITCH                      (loc);
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 122 "token.ll"
+#line 152 "token.ll"
 return  athena::Parser::make_LBRACE                      (loc);
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 123 "token.ll"
+#line 153 "token.ll"
 return  athena::Parser::make_RBRACE                      (loc);
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 124 "token.ll"
+#line 154 "token.ll"
 return  athena::Parser::make_SEMI                        (loc);
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 126 "token.ll"
+#line 156 "token.ll"
 return  athena::Parser::make_IN                          (loc);      
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 127 "token.ll"
+#line 157 "token.ll"
 return  athena::Parser::make_NOT                         (loc);     
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 128 "token.ll"
+#line 158 "token.ll"
 return  athena::Parser::make_AND                         (loc);     
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 129 "token.ll"
+#line 159 "token.ll"
 return  athena::Parser::make_OR                          (loc);      
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 130 "token.ll"
+#line 160 "token.ll"
 return  athena::Parser::make_TRUE                        (loc);      
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 131 "token.ll"
+#line 161 "token.ll"
 return  athena::Parser::make_FALSE                       (loc);      
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 132 "token.ll"
+#line 162 "token.ll"
 return  athena::Parser::make_MINUS                       (loc);   
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 133 "token.ll"
+#line 163 "token.ll"
 return  athena::Parser::make_PLUS                        (loc);    
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 134 "token.ll"
+#line 164 "token.ll"
 return  athena::Parser::make_STAR                        (loc);    
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 135 "token.ll"
+#line 165 "token.ll"
 return  athena::Parser::make_SLASH                       (loc);   
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 136 "token.ll"
+#line 166 "token.ll"
 return  athena::Parser::make_LPAREN                      (loc);  
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 137 "token.ll"
+#line 167 "token.ll"
 return  athena::Parser::make_RPAREN                      (loc);  
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 138 "token.ll"
+#line 168 "token.ll"
 return  athena::Parser::make_MODOLO                      (loc);  
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 139 "token.ll"
+#line 169 "token.ll"
 return  athena::Parser::make_BITWISE_OR                  (loc);
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 140 "token.ll"
+#line 170 "token.ll"
 return  athena::Parser::make_BITWISE_XOR                 (loc);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 141 "token.ll"
+#line 171 "token.ll"
 return  athena::Parser::make_BITWISE_AND                 (loc);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 142 "token.ll"
+#line 172 "token.ll"
 return  athena::Parser::make_BITWISE_NOT                 (loc);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 143 "token.ll"
+#line 173 "token.ll"
 return  athena::Parser::make_EQUAL                       (loc);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 144 "token.ll"
+#line 174 "token.ll"
 return  athena::Parser::make_ASSIGNMENT                  (loc);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 145 "token.ll"
+#line 175 "token.ll"
 return  athena::Parser::make_NOT_EQUAL                   (loc);
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 146 "token.ll"
+#line 176 "token.ll"
 return  athena::Parser::make_LESS_THAN                   (loc);
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 147 "token.ll"
+#line 177 "token.ll"
 return  athena::Parser::make_LESS_THAN_OR_EQUAL_TO       (loc);
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 148 "token.ll"
+#line 178 "token.ll"
 return  athena::Parser::make_GREATER_THAN                (loc);
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 149 "token.ll"
+#line 179 "token.ll"
 return  athena::Parser::make_GREATER_THAN_OR_EQUAL_TO    (loc);
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 150 "token.ll"
+#line 180 "token.ll"
 return  athena::Parser::make_COMMA                       (loc);
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 151 "token.ll"
+#line 181 "token.ll"
 return  athena::Parser::make_LBRACKET                    (loc);
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 152 "token.ll"
+#line 182 "token.ll"
 return  athena::Parser::make_RBRACKET                    (loc);
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 153 "token.ll"
+#line 183 "token.ll"
 return  athena::Parser::make_BITWISE_LEFT                (loc);
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 154 "token.ll"
+#line 184 "token.ll"
 return  athena::Parser::make_BITWISE_RIGHT               (loc);
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 156 "token.ll"
+#line 186 "token.ll"
 return  athena::Parser::make_ENTRY_ARG   (loc);
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 157 "token.ll"
+#line 187 "token.ll"
 return  athena::Parser::make_EXEC_CTX    (loc);
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 158 "token.ll"
+#line 188 "token.ll"
 return  athena::Parser::make_OUTPUT        (loc);
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 160 "token.ll"
+#line 190 "token.ll"
 return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 162 "token.ll"
-return  athena::Parser::make_I32 (std::stoull(yytext), loc);
+#line 192 "token.ll"
+return  athena::Parser::make_I32 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 163 "token.ll"
-return  athena::Parser::make_U8 (std::stoull(yytext), loc);
+#line 193 "token.ll"
+return  athena::Parser::make_U8 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 164 "token.ll"
-return  athena::Parser::make_U16 (std::stoull(yytext), loc);
+#line 194 "token.ll"
+return  athena::Parser::make_U16 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 165 "token.ll"
-return  athena::Parser::make_U32 (std::stoull(yytext), loc);
+#line 195 "token.ll"
+return  athena::Parser::make_U32 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 166 "token.ll"
-return  athena::Parser::make_U64 (std::stoull(yytext), loc);
+#line 196 "token.ll"
+return  athena::Parser::make_U64 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 167 "token.ll"
-return  athena::Parser::make_I8 (std::stoull(yytext), loc);
+#line 197 "token.ll"
+return  athena::Parser::make_I8 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 168 "token.ll"
-return  athena::Parser::make_I16 (std::stoull(yytext), loc);
+#line 198 "token.ll"
+return  athena::Parser::make_I16 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 169 "token.ll"
-return  athena::Parser::make_I32 (std::stoull(yytext), loc);
+#line 199 "token.ll"
+return  athena::Parser::make_I32 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 170 "token.ll"
-return  athena::Parser::make_I64 (std::stoull(yytext), loc);
+#line 200 "token.ll"
+return  athena::Parser::make_I64 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 172 "token.ll"
-return  athena::Parser::make_F64 (std::stod(yytext), loc);
+#line 202 "token.ll"
+return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 173 "token.ll"
-return  athena::Parser::make_F32 (std::stof(yytext), loc);
+#line 203 "token.ll"
+return  athena::Parser::make_F32 (ParseF32 (yytext, loc), loc);
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 174 "token.ll"
-return  athena::Parser::make_F64 (std::stod(yytext), loc);
+#line 204 "token.ll"
+return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 175 "token.ll"
-return  athena::Parser::make_F32 (std::stof(yytext), loc);
+#line 205 "token.ll"
+return  athena::Parser::make_F32 (ParseF32 (yytext, loc), loc);
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 176 "token.ll"
-return  athena::Parser::make_F64 (std::stod(yytext), loc);
+#line 206 "token.ll"
+return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
 	YY_BREAK
 case 61:
 /* rule 61 can match eol */
 YY_RULE_SETUP
-#line 179 "token.ll"
+#line 209 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case 62:
 /* rule 62 can match eol */
 YY_RULE_SETUP
-#line 180 "token.ll"
+#line 210 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-#line 182 "token.ll"
+#line 212 "token.ll"
 return  athena::Parser::make_YYEOF (loc);
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 183 "token.ll"
+#line 213 "token.ll"
 ECHO;
 	YY_BREAK
-#line 1475 "token.cc"
+#line 1505 "token.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -1659,7 +1688,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	else
 		{
-			yy_size_t num_to_read =
+			int num_to_read =
 			YY_CURRENT_BUFFER_LVALUE->yy_buf_size - number_to_move - 1;
 
 		while ( num_to_read <= 0 )
@@ -1673,7 +1702,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 			if ( b->yy_is_our_buffer )
 				{
-				yy_size_t new_size = b->yy_buf_size * 2;
+				int new_size = b->yy_buf_size * 2;
 
 				if ( new_size <= 0 )
 					b->yy_buf_size += b->yy_buf_size / 8;
@@ -1731,7 +1760,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	if ((yyg->yy_n_chars + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
 		/* Extend the array by 50%, plus the number we really need. */
-		yy_size_t new_size = yyg->yy_n_chars + number_to_move + (yyg->yy_n_chars >> 1);
+		int new_size = yyg->yy_n_chars + number_to_move + (yyg->yy_n_chars >> 1);
 		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) yyrealloc(
 			(void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf, (yy_size_t) new_size , yyscanner );
 		if ( ! YY_CURRENT_BUFFER_LVALUE->yy_ch_buf )
@@ -1838,7 +1867,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 		else
 			{ /* need more input */
-			yy_size_t offset = yyg->yy_c_buf_p - yyg->yytext_ptr;
+			int offset = (int) (yyg->yy_c_buf_p - yyg->yytext_ptr);
 			++yyg->yy_c_buf_p;
 
 			switch ( yy_get_next_buffer( yyscanner ) )
@@ -2216,12 +2245,12 @@ YY_BUFFER_STATE yy_scan_string (const char * yystr , yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, yy_size_t  _yybytes_len , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, int  _yybytes_len , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
 	char *buf;
 	yy_size_t n;
-	yy_size_t i;
+	int i;
     
 	/* Get memory for full buffer, including space for trailing EOB's. */
 	n = (yy_size_t) (_yybytes_len + 2);
@@ -2265,7 +2294,7 @@ static void yynoreturn yy_fatal_error (const char* msg , yyscan_t yyscanner)
 	do \
 		{ \
 		/* Undo effects of setting up yytext. */ \
-        yy_size_t yyless_macro_arg = (n); \
+        int yyless_macro_arg = (n); \
         YY_LESS_LINENO(yyless_macro_arg);\
 		yytext[yyleng] = yyg->yy_hold_char; \
 		yyg->yy_c_buf_p = yytext + yyless_macro_arg; \
@@ -2333,7 +2362,7 @@ FILE *yyget_out  (yyscan_t yyscanner)
 /** Get the length of the current token.
  * @param yyscanner The scanner object.
  */
-yy_size_t yyget_leng  (yyscan_t yyscanner)
+int yyget_leng  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyleng;
@@ -2602,7 +2631,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 183 "token.ll"
+#line 213 "token.ll"
 
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
diff --git a/athena/token.ll b/athena/token.ll
index 3c19b09..fb24c3d 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -4,8 +4,38 @@
 #include "parser.hh"
 #include <cerrno>
 #include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
+
+namespace {
+
+uint64_t ParseInt(const char *text, const athena::location &loc) {
+  errno = 0;
+  uint64_t value = std::strtoull(text, nullptr, 10);
+  if (errno == ERANGE) {
+    throw athena::Parser::syntax_error(loc, std::string("integer literal '") + text + "' is out of range");
+  }
+  return value;
+}
+
+float ParseF32(const char *text, const athena::location &loc) {
+  float value = std::strtof(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, std::string("float literal '") + text + "' is out of range");
+  }
+  return value;
+}
+
+double ParseF64(const char *text, const athena::location &loc) {
+  double value = std::strtod(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, std::string("float literal '") + text + "' is out of range");
+  }
+  return value;
+}
+
+}  // namespace
 %}
 
 %option prefix="athena_"
@@ -158,21 +188,21 @@ blank [ \t\r]
 
 {id}       return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 
-{int}      return  athena::Parser::make_I32 (std::stoull(yytext), loc);
-{int}"u8"  return  athena::Parser::make_U8 (std::stoull(yytext), loc);
-{int}"u16" return  athena::Parser::make_U16 (std::stoull(yytext), loc);
-{int}"u32" return  athena::Parser::make_U32 (std::stoull(yytext), loc);
-{int}"u64" return  athena::Parser::make_U64 (std::stoull(yytext), loc);
-{int}"i8"  return  athena::Parser::make_I8 (std::stoull(yytext), loc);
-{int}"i16" return  athena::Parser::make_I16 (std::stoull(yytext), loc);
-{int}"i32" return  athena::Parser::make_I32 (std::stoull(yytext), loc);
-{int}"i64" return  athena::Parser::make_I64 (std::stoull(yytext), loc);
-
-{float}       return  athena::Parser::make_F64 (std::stod(yytext), loc);
-{float}"f32"  return  athena::Parser::make_F32 (std::stof(yytext), loc);
-{float}"f64"  return  athena::Parser::make_F64 (std::stod(yytext), loc);
-{int}"f32"    return  athena::Parser::make_F32 (std::stof(yytext), loc);
-{int}"f64"    return  athena::Parser::make_F64 (std::stod(yytext), loc);
+{int}      return  athena::Parser::make_I32 (ParseInt (yytext, loc), loc);
+{int}"u8"  return  athena::Parser::make_U8 (ParseInt (yytext, loc), loc);
+{int}"u16" return  athena::Parser::make_U16 (ParseInt (yytext, loc), loc);
+{int}"u32" return  athena::Parser::make_U32 (ParseInt (yytext, loc), loc);
+{int}"u64" return  athena::Parser::make_U64 (ParseInt (yytext, loc), loc);
+{int}"i8"  return  athena::Parser::make_I8 (ParseInt (yytext, loc), loc);
+{int}"i16" return  athena::Parser::make_I16 (ParseInt (yytext, loc), loc);
+{int}"i32" return  athena::Parser::make_I32 (ParseInt (yytext, loc), loc);
+{int}"i64" return  athena::Parser::make_I64 (ParseInt (yytext, loc), loc);
+
+{float}       return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
+{float}"f32"  return  athena::Parser::make_F32 (ParseF32 (yytext, loc), loc);
+{float}"f64"  return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
+{int}"f32"    return  athena::Parser::make_F32 (ParseF32 (yytext, loc), loc);
+{int}"f64"    return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
 
 
 \"([^\\\"]|\\.)*\"     return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
-- 
2.43.0


From 75ab27238b6fc453dc9a8d05cdc46239b6f39522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 04/27] fix: reject characters the DSL does not know and do not
 stop at a NUL byte

Unmatched characters were echoed to stdout and otherwise ignored (1 $ 2 was
1 2), and everything after an embedded NUL was silently dropped.
token.cc regenerated.
---
 athena/token.cc | 23 ++++++++++++++---------
 athena/token.ll |  4 +++-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 7417e72..3bb8779 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -549,8 +549,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 63
-#define YY_END_OF_BUFFER 64
+#define YY_NUM_RULES 64
+#define YY_END_OF_BUFFER 65
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -560,7 +560,7 @@ struct yy_trans_info
 	};
 static const flex_int16_t yy_accept[146] =
     {   0,
-        0,    0,   64,   63,    1,    2,   15,   63,   26,   29,
+        0,    0,   65,   63,    1,    2,   15,   63,   26,   29,
        63,   24,   25,   22,   21,   38,   20,   63,   23,   47,
        13,   34,   32,   36,   46,   39,   40,   28,   46,   46,
        46,   46,   46,   46,   46,   46,   46,   46,   11,   27,
@@ -1492,16 +1492,21 @@ YY_RULE_SETUP
 #line 210 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
-case YY_STATE_EOF(INITIAL):
+case 63:
+YY_RULE_SETUP
 #line 212 "token.ll"
+throw athena::Parser::syntax_error(loc, "invalid character '" + std::string(yytext, yyleng) + "'");
+	YY_BREAK
+case YY_STATE_EOF(INITIAL):
+#line 214 "token.ll"
 return  athena::Parser::make_YYEOF (loc);
 	YY_BREAK
-case 63:
+case 64:
 YY_RULE_SETUP
-#line 213 "token.ll"
+#line 215 "token.ll"
 ECHO;
 	YY_BREAK
-#line 1505 "token.cc"
+#line 1510 "token.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2631,13 +2636,13 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 213 "token.ll"
+#line 215 "token.ll"
 
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yyscan_t scanner;
   yylex_init(&scanner);
-  auto *buffer = yy_scan_string(code.c_str(), scanner);
+  auto *buffer = yy_scan_bytes(code.data(), code.size(), scanner);
   athena::Parser parser(scanner, *this);
   int res = parser();
   yy_delete_buffer(buffer, scanner);
diff --git a/athena/token.ll b/athena/token.ll
index fb24c3d..a183534 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -208,13 +208,15 @@ blank [ \t\r]
 \"([^\\\"]|\\.)*\"     return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 \'([^\\\']|\\.)*\'     return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 
+.          throw athena::Parser::syntax_error(loc, "invalid character '" + std::string(yytext, yyleng) + "'");
+
 <<EOF>>    return  athena::Parser::make_YYEOF (loc);
 %%
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yyscan_t scanner;
   yylex_init(&scanner);
-  auto *buffer = yy_scan_string(code.c_str(), scanner);
+  auto *buffer = yy_scan_bytes(code.data(), code.size(), scanner);
   athena::Parser parser(scanner, *this);
   int res = parser();
   yy_delete_buffer(buffer, scanner);
-- 
2.43.0


From 9fc31228f1be5114d277385ec2b15011454f6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 05/27] fix: keep locations right after a comment or string
 that spans lines

The columns of a multi-line block comment were counted from its first line, and
line breaks inside string literals were not counted at all, so diagnostics for
later code pointed at the wrong place. token.cc regenerated.
---
 athena/token.cc | 170 +++++++++++++++++++++++++-----------------------
 athena/token.ll |  18 +++--
 2 files changed, 102 insertions(+), 86 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 3bb8779..2ab3a26 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -775,9 +775,19 @@ double ParseF64(const char *text, const athena::location &loc) {
   return value;
 }
 
+// Accounts for the line breaks inside a token; loc already spans its bytes as columns.
+void AdvanceLines(const char *text, int leng, athena::location &loc) {
+  for (int i = 0; i < leng; ++i) {
+    if (text[i] == '\n') {
+      loc.lines(1);
+      loc.columns(leng - i - 1);
+    }
+  }
+}
+
 }  // namespace
-#line 780 "token.cc"
-#line 45 "token.ll"
+#line 790 "token.cc"
+#line 55 "token.ll"
 #if defined __clang__
 # define CLANG_VERSION (__clang_major__ * 100 + __clang_minor__)
 #endif
@@ -847,13 +857,13 @@ double ParseF64(const char *text, const athena::location &loc) {
 #if defined GCC_VERSION && 900 <= GCC_VERSION
 # pragma GCC diagnostic ignored "-Wuseless-cast"
 #endif
-#line 851 "token.cc"
+#line 861 "token.cc"
 #define YY_NO_INPUT 1
-#line 124 "token.ll"
+#line 134 "token.ll"
   // Code run each time a pattern is matched.
   # define YY_USER_ACTION  loc.columns (yyleng);
-#line 856 "token.cc"
-#line 857 "token.cc"
+#line 866 "token.cc"
+#line 867 "token.cc"
 
 #define INITIAL 0
 
@@ -1111,16 +1121,16 @@ YY_DECL
 		}
 
 	{
-#line 127 "token.ll"
+#line 137 "token.ll"
 
 
-#line 130 "token.ll"
+#line 140 "token.ll"
   // A handy shortcut to the location held by the Parser.
   athena::location& loc = builder.GetLocation();
   // Code run each time yylex is called.
   loc.step ();
 
-#line 1124 "token.cc"
+#line 1134 "token.cc"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1175,338 +1185,336 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 135 "token.ll"
+#line 145 "token.ll"
 loc.step ();
 	YY_BREAK
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 136 "token.ll"
+#line 146 "token.ll"
 loc.lines (yyleng); loc.step ();
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 138 "token.ll"
+#line 148 "token.ll"
 loc.step ();
 	YY_BREAK
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 139 "token.ll"
+#line 149 "token.ll"
 {
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
+                                AdvanceLines (yytext, yyleng, loc);
                                 loc.step();
                               }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 146 "token.ll"
+#line 154 "token.ll"
 return  athena::Parser::make_LET                         (loc);
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 147 "token.ll"
+#line 155 "token.ll"
 return  athena::Parser::make_WHEN                        (loc);
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 148 "token.ll"
+#line 156 "token.ll"
 return  athena::Parser::make_IF                          (loc);
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 149 "token.ll"
+#line 157 "token.ll"
 return  athena::Parser::make_ELIF                        (loc);
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 150 "token.ll"
+#line 158 "token.ll"
 return  athena::Parser::make_ELSE                        (loc);
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 151 "token.ll"
+#line 159 "token.ll"
 return  athena::Parser::make_SWITCH                      (loc);
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 152 "token.ll"
+#line 160 "token.ll"
 return  athena::Parser::make_LBRACE                      (loc);
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 153 "token.ll"
+#line 161 "token.ll"
 return  athena::Parser::make_RBRACE                      (loc);
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 154 "token.ll"
+#line 162 "token.ll"
 return  athena::Parser::make_SEMI                        (loc);
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 156 "token.ll"
+#line 164 "token.ll"
 return  athena::Parser::make_IN                          (loc);      
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 157 "token.ll"
+#line 165 "token.ll"
 return  athena::Parser::make_NOT                         (loc);     
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 158 "token.ll"
+#line 166 "token.ll"
 return  athena::Parser::make_AND                         (loc);     
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 159 "token.ll"
+#line 167 "token.ll"
 return  athena::Parser::make_OR                          (loc);      
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 160 "token.ll"
+#line 168 "token.ll"
 return  athena::Parser::make_TRUE                        (loc);      
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 161 "token.ll"
+#line 169 "token.ll"
 return  athena::Parser::make_FALSE                       (loc);      
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 162 "token.ll"
+#line 170 "token.ll"
 return  athena::Parser::make_MINUS                       (loc);   
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 163 "token.ll"
+#line 171 "token.ll"
 return  athena::Parser::make_PLUS                        (loc);    
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 164 "token.ll"
+#line 172 "token.ll"
 return  athena::Parser::make_STAR                        (loc);    
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 165 "token.ll"
+#line 173 "token.ll"
 return  athena::Parser::make_SLASH                       (loc);   
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 166 "token.ll"
+#line 174 "token.ll"
 return  athena::Parser::make_LPAREN                      (loc);  
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 167 "token.ll"
+#line 175 "token.ll"
 return  athena::Parser::make_RPAREN                      (loc);  
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 168 "token.ll"
+#line 176 "token.ll"
 return  athena::Parser::make_MODOLO                      (loc);  
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 169 "token.ll"
+#line 177 "token.ll"
 return  athena::Parser::make_BITWISE_OR                  (loc);
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 170 "token.ll"
+#line 178 "token.ll"
 return  athena::Parser::make_BITWISE_XOR                 (loc);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 171 "token.ll"
+#line 179 "token.ll"
 return  athena::Parser::make_BITWISE_AND                 (loc);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 172 "token.ll"
+#line 180 "token.ll"
 return  athena::Parser::make_BITWISE_NOT                 (loc);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 173 "token.ll"
+#line 181 "token.ll"
 return  athena::Parser::make_EQUAL                       (loc);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 174 "token.ll"
+#line 182 "token.ll"
 return  athena::Parser::make_ASSIGNMENT                  (loc);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 175 "token.ll"
+#line 183 "token.ll"
 return  athena::Parser::make_NOT_EQUAL                   (loc);
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 176 "token.ll"
+#line 184 "token.ll"
 return  athena::Parser::make_LESS_THAN                   (loc);
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 177 "token.ll"
+#line 185 "token.ll"
 return  athena::Parser::make_LESS_THAN_OR_EQUAL_TO       (loc);
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 178 "token.ll"
+#line 186 "token.ll"
 return  athena::Parser::make_GREATER_THAN                (loc);
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 179 "token.ll"
+#line 187 "token.ll"
 return  athena::Parser::make_GREATER_THAN_OR_EQUAL_TO    (loc);
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 180 "token.ll"
+#line 188 "token.ll"
 return  athena::Parser::make_COMMA                       (loc);
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 181 "token.ll"
+#line 189 "token.ll"
 return  athena::Parser::make_LBRACKET                    (loc);
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 182 "token.ll"
+#line 190 "token.ll"
 return  athena::Parser::make_RBRACKET                    (loc);
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 183 "token.ll"
+#line 191 "token.ll"
 return  athena::Parser::make_BITWISE_LEFT                (loc);
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 184 "token.ll"
+#line 192 "token.ll"
 return  athena::Parser::make_BITWISE_RIGHT               (loc);
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 186 "token.ll"
+#line 194 "token.ll"
 return  athena::Parser::make_ENTRY_ARG   (loc);
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 187 "token.ll"
+#line 195 "token.ll"
 return  athena::Parser::make_EXEC_CTX    (loc);
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 188 "token.ll"
+#line 196 "token.ll"
 return  athena::Parser::make_OUTPUT        (loc);
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 190 "token.ll"
+#line 198 "token.ll"
 return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 192 "token.ll"
+#line 200 "token.ll"
 return  athena::Parser::make_I32 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 193 "token.ll"
+#line 201 "token.ll"
 return  athena::Parser::make_U8 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 194 "token.ll"
+#line 202 "token.ll"
 return  athena::Parser::make_U16 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 195 "token.ll"
+#line 203 "token.ll"
 return  athena::Parser::make_U32 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 196 "token.ll"
+#line 204 "token.ll"
 return  athena::Parser::make_U64 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 197 "token.ll"
+#line 205 "token.ll"
 return  athena::Parser::make_I8 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 198 "token.ll"
+#line 206 "token.ll"
 return  athena::Parser::make_I16 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 199 "token.ll"
+#line 207 "token.ll"
 return  athena::Parser::make_I32 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 200 "token.ll"
+#line 208 "token.ll"
 return  athena::Parser::make_I64 (ParseInt (yytext, loc), loc);
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 202 "token.ll"
+#line 210 "token.ll"
 return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 203 "token.ll"
+#line 211 "token.ll"
 return  athena::Parser::make_F32 (ParseF32 (yytext, loc), loc);
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 204 "token.ll"
+#line 212 "token.ll"
 return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 205 "token.ll"
+#line 213 "token.ll"
 return  athena::Parser::make_F32 (ParseF32 (yytext, loc), loc);
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 206 "token.ll"
+#line 214 "token.ll"
 return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
 	YY_BREAK
 case 61:
 /* rule 61 can match eol */
 YY_RULE_SETUP
-#line 209 "token.ll"
-return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
+#line 217 "token.ll"
+AdvanceLines (yytext, yyleng, loc); return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case 62:
 /* rule 62 can match eol */
 YY_RULE_SETUP
-#line 210 "token.ll"
-return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
+#line 218 "token.ll"
+AdvanceLines (yytext, yyleng, loc); return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 212 "token.ll"
+#line 220 "token.ll"
 throw athena::Parser::syntax_error(loc, "invalid character '" + std::string(yytext, yyleng) + "'");
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-#line 214 "token.ll"
+#line 222 "token.ll"
 return  athena::Parser::make_YYEOF (loc);
 	YY_BREAK
 case 64:
 YY_RULE_SETUP
-#line 215 "token.ll"
+#line 223 "token.ll"
 ECHO;
 	YY_BREAK
-#line 1510 "token.cc"
+#line 1518 "token.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2636,7 +2644,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 215 "token.ll"
+#line 223 "token.ll"
 
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
diff --git a/athena/token.ll b/athena/token.ll
index a183534..663887c 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -35,6 +35,16 @@ double ParseF64(const char *text, const athena::location &loc) {
   return value;
 }
 
+// Accounts for the line breaks inside a token; loc already spans its bytes as columns.
+void AdvanceLines(const char *text, int leng, athena::location &loc) {
+  for (int i = 0; i < leng; ++i) {
+    if (text[i] == '\n') {
+      loc.lines(1);
+      loc.columns(leng - i - 1);
+    }
+  }
+}
+
 }  // namespace
 %}
 
@@ -136,9 +146,7 @@ blank [ \t\r]
 
 "//"[^\n]*                    loc.step ();
 "/*"([^*]|\*+[^*/])*\*+"/"   {
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
+                                AdvanceLines (yytext, yyleng, loc);
                                 loc.step();
                               }
 
@@ -205,8 +213,8 @@ blank [ \t\r]
 {int}"f64"    return  athena::Parser::make_F64 (ParseF64 (yytext, loc), loc);
 
 
-\"([^\\\"]|\\.)*\"     return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
-\'([^\\\']|\\.)*\'     return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
+\"([^\\\"]|\\.)*\"     AdvanceLines (yytext, yyleng, loc); return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
+\'([^\\\']|\\.)*\'     AdvanceLines (yytext, yyleng, loc); return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 
 .          throw athena::Parser::syntax_error(loc, "invalid character '" + std::string(yytext, yyleng) + "'");
 
-- 
2.43.0


From b5c7cb4c2ec15fa86e18e1f3b827337fef752ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 06/27] fix: do not dereference a failed definition in
 expression mode

a = undefined_name; a; crashed: the expression of a is null after the error.
---
 athena/ast_builder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 81a9440..8b5fded 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -83,7 +83,8 @@ std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_
   jitfusion::Diagnostic diag(jitfusion::Diagnostic::Level::kError, "variable '" + var_name + "' is not defined",
                              jitfusion::SourceLocation{source_code_, begin_line, begin_col, end_line, end_col});
   custom_error_message_ = diag.Render();
-  return nullptr;
+  // The build fails in the end, but later statements may still clone this one: no null children.
+  return std::make_unique<RefNode>(var_name);
 }
 
 void ProgramAstBuilder::AddStatement(Statement statement) {
-- 
2.43.0


From 265d4bd80ead74d53e3b8222e0c80760a99f13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 07/27] fix: enforce let in expression mode

A let variable could be reassigned and an existing variable redeclared with let,
which the README documents as compile-time errors; only pipelines checked it.
---
 athena/ast_builder.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 8b5fded..b6f6f39 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -88,6 +88,16 @@ std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_
 }
 
 void ProgramAstBuilder::AddStatement(Statement statement) {
+  // In pipeline mode the validator checks let; in expression mode variables are gone by then.
+  if (auto it = var2index_.find(statement.var_name); build_mode_ == BuildMode::kExpression && it != var2index_.end() &&
+                                                     (statements_[it->second].is_const || statement.is_const) &&
+                                                     custom_error_message_.empty()) {
+    const std::string message = statements_[it->second].is_const
+                                    ? "cannot reassign const variable '" + statement.var_name + "'"
+                                    : "cannot redeclare variable '" + statement.var_name + "' with let";
+    const auto location = statement.expression ? statement.expression->GetLocation() : jitfusion::SourceLocation{};
+    custom_error_message_ = jitfusion::Diagnostic(jitfusion::Diagnostic::Level::kError, message, location).Render();
+  }
   statements_.emplace_back(std::move(statement));
   const auto& var_name = statements_.back().var_name;
   if (var_name.empty()) {
-- 
2.43.0


From 05a723f9857711c25e3c84df8aa363b51d0bed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 08/27] fix: tell float list constants apart by their bits

The per-module cache of list constants was a std::map ordered by operator<, so
[0.0] and [-0.0], or [nan] and any other list of the same length, were the same
key and the second constant read as the first.
---
 include/function_registry.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/function_registry.h b/include/function_registry.h
index d6b8b4c..797e17f 100644
--- a/include/function_registry.h
+++ b/include/function_registry.h
@@ -6,9 +6,11 @@
  */
 #pragma once
 
+#include <cstring>
 #include <functional>
 #include <map>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
 #include <vector>
 #include "llvm/ExecutionEngine/Orc/LLJIT.h"
@@ -52,6 +54,30 @@ struct LLVMStructType {
 
 constexpr const char *kCommutative = "commutative";
 
+// Orders list constants by their exact bits: operator< on floating-point elements would treat -0.0 and 0.0, or a NaN
+// and any other value, as the same constant.
+struct ConstListLess {
+  bool operator()(const ConstantListValueType &lhs, const ConstantListValueType &rhs) const {
+    if (lhs.index() != rhs.index()) {
+      return lhs.index() < rhs.index();
+    }
+    return std::visit(
+        [&rhs](const auto &l) {
+          using ListT = std::decay_t<decltype(l)>;
+          const auto &r = std::get<ListT>(rhs);
+          if constexpr (std::is_floating_point_v<typename ListT::value_type>) {
+            if (l.size() != r.size()) {
+              return l.size() < r.size();
+            }
+            return !l.empty() && std::memcmp(l.data(), r.data(), l.size() * sizeof(l[0])) < 0;
+          } else {
+            return l < r;
+          }
+        },
+        lhs);
+  }
+};
+
 struct IRCodeGenContext {
   IRCodeGenContext(llvm::LLVMContext &context, llvm::Module &module, llvm::IRBuilder<> &builder,
                    llvm::Function *entry_function, LLVMStructType complex_type,
@@ -68,7 +94,7 @@ struct IRCodeGenContext {
   llvm::IRBuilder<> &builder;
   llvm::Function *entry_function;
   LLVMStructType complex_type;
-  std::map<ConstantListValueType, llvm::Value *> const_list_cache;
+  std::map<ConstantListValueType, llvm::Value *, ConstListLess> const_list_cache;
   std::map<std::string, llvm::Constant *> const_string_cache;
   const std::unique_ptr<FunctionRegistry> &function_registry;
 };
-- 
2.43.0


From 0963738b5ed26a51870ed191dcdc4944022a217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 09/27] fix: let an overriding registration change the return
 type

---
 src/function_registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index d706377..49cd0ca 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -111,7 +111,9 @@ Status FunctionRegistry::RegisterFunc(const FunctionSignature& func_sign, Functi
     return Status::InvalidArgument("function ", func_sign.ToString(),
                                    " is already registered; pass allow_override=true to overwrite");
   }
-  signature2funcstruct_[func_sign] = std::move(func_struct);
+  // The return type is part of the key but not of its equality: drop the old key so that an override changes it too.
+  signature2funcstruct_.erase(func_sign);
+  signature2funcstruct_.emplace(func_sign, std::move(func_struct));
   return Status::OK();
 }
 
-- 
2.43.0


From ce1d1c67311f0730997bb8f0f386ccfc37dad222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 10/27] fix: register a function with its exec-context form, or
 neither

---
 src/function_registry.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index 49cd0ca..87347b2 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -145,6 +145,14 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
+  legacy_params.emplace_back(ValueType::kPtr);
+  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
+  // Both signatures are registered or neither is.
+  if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+    return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                   " is already registered; pass allow_override=true to overwrite");
+  }
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects
   // exec_ctx when emitting the call so the C ABI (N+1 args) is preserved.
   {
@@ -159,9 +167,6 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
   // like the old RegisterReadOnlyCFunc registration. Existing callers
   // (AST builders that still create an ExecContextNode tail arg, or
   // athena DSL code using `EXEC_CTX`) keep working unchanged.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
@@ -199,6 +204,14 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
+  legacy_params.emplace_back(ValueType::kPtr);
+  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
+  // Both signatures are registered or neither is.
+  if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+    return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                   " is already registered; pass allow_override=true to overwrite");
+  }
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects.
   {
     FunctionStructure func_struct;
@@ -211,9 +224,6 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
   // Legacy compatibility signature: with trailing kPtr; identical to the
   // old RegisterCommutativeCFunc registration so existing AST/DSL code
   // that still passes ExecContextNode keeps resolving.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
-- 
2.43.0


From 21dd9960a2abed4a3c1aa0fd60615615e2416aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 11/27] fix: check the sizes a compiled artifact declares
 before using them

A damaged obj_size could wrap the bounds check around and hand LLVM a view far
past the blob; damaged entry and extension counts allocated gigabytes or threw.
---
 src/compiled_artifact.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 2c55b07..894093d 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -103,7 +103,7 @@ class ArtifactReader {
   Status ReadLenPrefixedStr(std::string* out) {
     std::uint32_t len = 0;
     JF_RETURN_NOT_OK(ReadU32LE(&len));
-    if (pos_ + len > buf_.size()) {
+    if (len > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated string (want ", len, " bytes, have ",
                                      buf_.size() - pos_, ")");
     }
@@ -127,7 +127,8 @@ class ArtifactReader {
   }
 
   Status ReadBytesView(std::size_t n, std::string_view* out) {
-    if (pos_ + n > buf_.size()) {
+    // Not `pos_ + n > size`: n comes from the blob and the sum can wrap around.
+    if (n > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated blob (want ", n, " bytes, have ", buf_.size() - pos_,
                                      ")");
     }
@@ -254,6 +255,12 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   if (out_header->mode == ArtifactMode::kSingle && num_entries != 1) {
     return Status::InvalidArgument("compiled artifact: single-mode artifact with num_entries=", num_entries);
   }
+  // Every entry and every extension takes at least one byte, so a count larger than what is left is damage; check it
+  // before allocating for it.
+  if (num_entries > r.remaining()) {
+    return Status::InvalidArgument("compiled artifact: num_entries=", num_entries, " does not fit in the ",
+                                   r.remaining(), " bytes left");
+  }
   out_header->per_entry_ret_types.resize(num_entries);
   for (std::uint32_t i = 0; i < num_entries; ++i) {
     std::uint8_t rt_byte = 0;
@@ -268,7 +275,10 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   std::uint32_t ext_count = 0;
   JF_RETURN_NOT_OK(r.ReadU32LE(&ext_count));
   out_header->extensions.clear();
-  out_header->extensions.reserve(ext_count);
+  if (ext_count > r.remaining()) {
+    return Status::InvalidArgument("compiled artifact: extension_count=", ext_count, " does not fit in the ",
+                                   r.remaining(), " bytes left");
+  }
   for (std::uint32_t i = 0; i < ext_count; ++i) {
     ArtifactExtension ext;
     JF_RETURN_NOT_OK(r.ReadU32LE(&ext.tag));
-- 
2.43.0


From 88a1436146c814eb2db5fdd193d075bf47e87f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 12/27] fix: keep the engine as it was when loading an artifact
 fails

LoadCompiled replaced the JIT before the new object resolved, so a load that
failed left the entry pointers of the destroyed JIT in place.
---
 src/batch_exec_engine.cc | 6 ++++--
 src/exec_engine.cc       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 5484bb1..746b79e 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -212,7 +212,8 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
 
   ExecEngineOption new_opt = core_->GetOption();
   new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
+  // Swapped in only once everything resolved: the current entry pointers point into the current core.
+  auto new_core = std::make_unique<JitCore>(new_opt);
 
   const size_t n = header.per_entry_ret_types.size();
   std::vector<std::string> symbol_names;
@@ -221,8 +222,9 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
     symbol_names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(new_core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  core_ = std::move(new_core);
   entry_func_ptrs_ = std::move(func_ptrs);
   ret_types_ = std::move(header.per_entry_ret_types);
   return Status::OK();
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index b15c9eb..1f1a2f1 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -130,12 +130,14 @@ Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<Fu
   // linker flags stay consistent).
   ExecEngineOption new_opt = core_->GetOption();
   new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
+  // Swapped in only once everything resolved: the current entry pointers point into the current core.
+  auto new_core = std::make_unique<JitCore>(new_opt);
 
   std::vector<std::string> symbol_names{kEntryFunctionName};
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(new_core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  core_ = std::move(new_core);
   entry_func_ptr_ = func_ptrs[0];
   // DeserializeArtifact guarantees per_entry_ret_types is non-empty
   // (num_entries >= 1, and single-mode blobs specifically have exactly
-- 
2.43.0


From 29ac9bc904202b8b8bef10585f15055b924b72c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 13/27] fix: report an error when an uncompiled engine is
 executed with a void* result

---
 src/exec_engine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index 1f1a2f1..73a41ee 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -68,6 +68,9 @@ Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, RetType
 }
 
 Status ExecEngine::Execute(void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   ExecContext exec_ctx(core_->GetOption().exec_ctx_arena_alloc_min_chunk_size);
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
@@ -78,6 +81,9 @@ Status ExecEngine::Execute(void* entry_arguments, void* result) {
 }
 
 Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
   Status ret = Status::OK();
-- 
2.43.0


From 44cc87d9208c6bcf45e08ca37aae5a43d01c5a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 14/27] fix: leave nothing of the previous program behind when
 a compile fails

The IR text of the previous program stayed visible after a rejected Compile, and
a batch whose symbols did not resolve kept null entry points.
---
 src/batch_exec_engine.cc | 8 +++++++-
 src/jit_core.cc          | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 746b79e..bf0d26f 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -45,7 +45,13 @@ Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& ex
     nodes.emplace_back(exec_nodes[i].get());
     names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
-  return core_->BuildAndLink(nodes, names, func_registry, &entry_func_ptrs_, &ret_types_);
+  std::vector<char*> func_ptrs;
+  std::vector<ValueType> ret_types;
+  JF_RETURN_NOT_OK(core_->BuildAndLink(nodes, names, func_registry, &func_ptrs, &ret_types));
+
+  entry_func_ptrs_ = std::move(func_ptrs);
+  ret_types_ = std::move(ret_types);
+  return Status::OK();
 }
 
 Status BatchExecEngine::ExecuteAt(size_t index, void* entry_arguments, RetType* result) {
diff --git a/src/jit_core.cc b/src/jit_core.cc
index 4a46789..bd5d8a4 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -241,14 +241,14 @@ Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vec
     return Status::RuntimeError("[internal] BuildAndLink: nodes.size() != symbol_names.size() (compiler bug)");
   }
 
+  Reset();
+
   // Validation runs up front on caller-supplied nodes.
   Validator validator(func_registry);
   for (auto* node : nodes) {
     JF_RETURN_NOT_OK(validator.Validate(node));
   }
 
-  Reset();
-
   auto llvm_context = std::make_unique<llvm::LLVMContext>();
   auto owner = std::make_unique<llvm::Module>("module", *llvm_context);
   LLVMStructType llvm_struct_type = CreateLLVMStructType(*llvm_context);
-- 
2.43.0


From a4c850031e479158ee4d0fa75f4811fe5bda6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 15/27] fix: check bits_cnt in FilterByBitmap before writing
 past the result

---
 src/function/list_comparison.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e7b2912..9c829da 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -379,12 +379,26 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
     exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to list len");
     return {nullptr, 0};
   }
+  // Check the bitmap against bits_cnt before writing: the result only has room for bits_cnt elements (plus one slot
+  // that the branch-free loops below may write to without keeping it).
+  uint32_t full_bytes = a.len / 8;
+  uint32_t set_bits = 0;
+  for (uint32_t i = 0; i < bitmap.len; i++) {
+    set_bits += static_cast<uint32_t>(__builtin_popcount(bitmap.data[i]));
+  }
+  if (full_bytes < bitmap.len && (bitmap.data[full_bytes] >> (a.len - full_bytes * 8)) != 0) {
+    exec_ctx->AddError("FilterByBitmap: bitmap len is too long");
+    return {nullptr, 0};
+  }
+  if (set_bits != bits_cnt) {
+    exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
+    return {nullptr, 0};
+  }
   ListType result;
   result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((bits_cnt + 1) * sizeof(T)));
   result.len = bits_cnt;
 
   uint32_t cur = 0;
-  uint32_t full_bytes = a.len / 8;
   for (uint32_t i = 0; i < full_bytes; i++) {
     uint8_t mask = bitmap.data[i];
     if (mask == 0) {
@@ -407,10 +421,6 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
     uint8_t mask = bitmap.data[full_bytes];
     uint32_t base_idx = full_bytes * 8;
     uint32_t valid = a.len - base_idx;
-    if ((mask >> valid) != 0) {
-      exec_ctx->AddError("FilterByBitmap: bitmap len is too long");
-      return {nullptr, 0};
-    }
     const T *base = a.data + base_idx;
     for (uint32_t k = 0; k < valid; k++) {
       uint32_t b = (mask >> k) & 1U;
@@ -418,10 +428,6 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
       cur += b;
     }
   }
-  if (cur != bits_cnt) {
-    exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
-    return {nullptr, 0};
-  }
   return result;
 }
 
-- 
2.43.0


From 63740a9a93f50ff1b64b3dce830b61cd73f54d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 16/27] fix: seed GroupMax and GroupMin of floats with the
 infinities

A group holding only -inf (or only inf) gave the largest finite number.
---
 src/function/list_group.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index c577528..001e78f 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -129,7 +129,7 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::lowest();
+  V seed = std::numeric_limits<V>::has_infinity ? -std::numeric_limits<V>::infinity() : std::numeric_limits<V>::lowest();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::max(result.data[group_index.data[i]], values.data[i]);
@@ -149,7 +149,7 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::max();
+  V seed = std::numeric_limits<V>::has_infinity ? std::numeric_limits<V>::infinity() : std::numeric_limits<V>::max();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::min(result.data[group_index.data[i]], values.data[i]);
-- 
2.43.0


From f5c0dfe9ace8e1cf258f40ba908cf5257f4a0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 17/27] fix: when condition spanning several blocks left the
 PHI of the merge block with a wrong predecessor

---
 src/codegen/if_block_codegen.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index 9a09732..85c0de4 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -61,10 +61,6 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
     llvm::BasicBlock *cond_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.cond", cur_function);
     ctx_.builder.SetInsertPoint(cond_block);
 
-    if (last_cond_block == nullptr) {
-      last_cond_block = cond_block;
-    }
-
     llvm::Value *cond_value{};
     JF_RETURN_NOT_OK(GetValue(args[cond_idx].get(), &cond_value));
     if (cond_value->getType()->isIntegerTy()) {
@@ -76,6 +72,10 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
     }
 
     llvm::BasicBlock *body_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.body", cur_function);
+    // A condition may span several basic blocks: the edge to the next branch leaves from the last of them.
+    if (last_cond_block == nullptr) {
+      last_cond_block = ctx_.builder.GetInsertBlock();
+    }
     ctx_.builder.CreateCondBr(cond_value, body_block, prev_false_block);
 
     ctx_.builder.SetInsertPoint(body_block);
-- 
2.43.0


From 32c8ee81f69876917918d84e9132b00392606e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 18/27] fix: a when block assigning a variable of void type
 crashed the compiler

---
 src/codegen/if_block_codegen.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index 85c0de4..6964d7a 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -114,6 +114,10 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
 
     for (const auto &var_name : all_modified_vars) {
       llvm::Value *original_value = *scope_stack_.Lookup(var_name);
+      // A variable holding the result of a void function has no value to merge.
+      if (original_value == nullptr || original_value->getType()->isVoidTy()) {
+        continue;
+      }
       llvm::PHINode *phi = ctx_.builder.CreatePHI(original_value->getType(), num_incoming, var_name + ".phi");
       for (const auto &info : branch_infos) {
         auto it = info.modified.find(var_name);
-- 
2.43.0


From 6929e1d39506f9e42c91fb4596f07dfb36bccf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 19/27] fix: BatchExecEngine::ExecuteAll before a successful
 compile reports an error instead of OK

---
 src/batch_exec_engine.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index bf0d26f..09d1b7c 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -112,6 +112,9 @@ Status BatchExecEngine::ExecuteAt(size_t index, ExecContext& exec_ctx, void* ent
 
 Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>* results) {
   results->resize(entry_func_ptrs_.size());
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, entry_arguments, &(*results)[i]);
@@ -130,6 +133,9 @@ Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>*
 
 Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments, std::vector<RetType>* results) {
   results->resize(entry_func_ptrs_.size());
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, exec_ctx, entry_arguments, &(*results)[i]);
@@ -147,6 +153,9 @@ Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments,
 }
 
 Status BatchExecEngine::ExecuteAll(void* entry_arguments, void* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, entry_arguments, results);
@@ -164,6 +173,9 @@ Status BatchExecEngine::ExecuteAll(void* entry_arguments, void* results) {
 }
 
 Status BatchExecEngine::ExecuteAll(ExecContext& exec_ctx, void* entry_arguments, void* results) {
+  if (entry_func_ptrs_.empty()) {
+    return Status::RuntimeError("ExecuteAll: nothing compiled yet. Call Compile() first.");
+  }
   std::string all_errors;
   for (size_t i = 0; i < entry_func_ptrs_.size(); ++i) {
     Status st = ExecuteAt(i, exec_ctx, entry_arguments, results);
-- 
2.43.0


From 74aa471c79ab183bc2cc798f6b4d73c2bc9d22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 20/27] fix: variables of one batch entry were visible when
 validating the next entries

---
 src/jit_core.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jit_core.cc b/src/jit_core.cc
index bd5d8a4..acb9045 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -244,8 +244,10 @@ Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vec
   Reset();
 
   // Validation runs up front on caller-supplied nodes.
-  Validator validator(func_registry);
+  // Every entry is an independent program: each gets its own validator, so that
+  // a variable of one entry is not visible in the next one.
   for (auto* node : nodes) {
+    Validator validator(func_registry);
     JF_RETURN_NOT_OK(validator.Validate(node));
   }
 
-- 
2.43.0


From 79b424f93fdbe169d6555285b6ab37c11109eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:31 +0000
Subject: [PATCH 21/27] fix: Gen*Bitmap wrote one byte past its result for
 lists whose length is a multiple of 8

---
 src/function/list_comparison.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index 9c829da..fcd8172 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -290,7 +290,9 @@ U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec
     result.data[(i / 8)] = mask_bit;
   }
   auto last_index = (vec_loop_len / 8);
-  result.data[last_index] = 0;
+  if (last_index < result.len) {
+    result.data[last_index] = 0;
+  }
   for (int j = 0; i + j < a.len; j++) {
     uint32_t is_true;
     if constexpr (BinaryOPType::kLarge == OpType) {
@@ -350,7 +352,9 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
     result.data[(i / 8)] = mask_bit;
   }
   auto last_index = (vec_loop_len / 8);
-  result.data[last_index] = 0;
+  if (last_index < result.len) {
+    result.data[last_index] = 0;
+  }
   for (int j = 0; i + j < len; j++) {
     uint32_t is_true;
     if constexpr (BinaryOPType::kLarge == OpType) {
-- 
2.43.0


From f780bd99f9212a9914620f215def99d77bb56549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 22/27] fix: a function that takes the context resolves to its
 own registration, not to the form with an explicit context

---
 src/codegen/function_codegen.cc | 7 ++++++-
 src/function_registry.cc        | 6 ------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/codegen/function_codegen.cc b/src/codegen/function_codegen.cc
index 42d39a0..03f9591 100644
--- a/src/codegen/function_codegen.cc
+++ b/src/codegen/function_codegen.cc
@@ -46,7 +46,12 @@ Status CodeGen::Visit(FunctionNode& function_node) {
         std::vector<ValueType> ctx_param_types = sign.GetParamTypes();
         ctx_param_types.emplace_back(ValueType::kPtr);
         FunctionSignature ctx_sign(sign.GetName(), std::move(ctx_param_types), sign.GetRetType());
-        call_symbol_name = ctx_sign.ToString();
+        // Share the symbol of the form that takes the context explicitly, unless that form is another function.
+        FunctionStructure ctx_struct;
+        const bool shared = ctx_.function_registry->GetFuncBySign(ctx_sign, &ctx_struct).ok() &&
+                            ctx_struct.func_type == FunctionType::kCFunc && !ctx_struct.needs_exec_ctx &&
+                            ctx_struct.c_func_ptr == func_struct.c_func_ptr;
+        call_symbol_name = shared ? ctx_sign.ToString() : sign.ToString();
       } else {
         call_symbol_name = sign.ToString();
       }
diff --git a/src/function_registry.cc b/src/function_registry.cc
index 87347b2..dd61718 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -247,9 +247,6 @@ Status FunctionRegistry::SetCFuncAttr(llvm::Module* m) {
     if (FunctionType::kLLVMIntrinicFunc == fc.func_type) {
       continue;
     }
-    if (fc.needs_exec_ctx) {
-      continue;
-    }
     auto* func = m->getFunction(sign.ToString());
     if (func == nullptr) {
       continue;
@@ -269,9 +266,6 @@ Status FunctionRegistry::MappingToJIT(llvm::orc::LLJIT* jit) {
     if (FunctionType::kLLVMIntrinicFunc == fc.func_type) {
       continue;
     }
-    if (fc.needs_exec_ctx) {
-      continue;
-    }
     auto function_a_address = llvm::orc::ExecutorAddr::fromPtr(fc.c_func_ptr);
     symbols.try_emplace(mangle(sign.ToString()), function_a_address, llvm::JITSymbolFlags::Exported);
   }
-- 
2.43.0


From 15fe6d6a0e1ee0906e4f9524453137de2dfbce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:52 +0000
Subject: [PATCH 23/27] fix: pass string and list arguments as the C ABI does
 when the registers run out

---
 src/codegen/function_codegen.cc | 48 +++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/codegen/function_codegen.cc b/src/codegen/function_codegen.cc
index 03f9591..cb3eb2c 100644
--- a/src/codegen/function_codegen.cc
+++ b/src/codegen/function_codegen.cc
@@ -4,6 +4,7 @@
  * @Last Modified by: victorika
  * @Last Modified time: 2026-05-11 16:17:09
  */
+#include <utility>
 #include <vector>
 #include "codegen.h"
 #include "function_registry.h"
@@ -13,6 +14,40 @@
 
 namespace jitfusion {
 
+namespace {
+
+// A string or list takes two integer registers. When fewer are left, the x86-64 System V ABI passes it whole in memory,
+// while LLVM would split a first-class aggregate between the last register and the stack. Replaces such arguments by
+// pointers to copies and returns their positions and types, to be marked byval.
+std::vector<std::pair<unsigned, llvm::Type*>> PassInMemory(IRCodeGenContext& ctx, std::vector<llvm::Type*>* types,
+                                                           std::vector<llvm::Value*>* values) {
+  std::vector<std::pair<unsigned, llvm::Type*>> in_memory;
+#if defined(__x86_64__) && !defined(_WIN32)
+  unsigned free_registers = 6;
+  for (unsigned i = 0; i < types->size(); ++i) {
+    llvm::Type* type = (*types)[i];
+    if (type->isFloatingPointTy()) {
+      continue;
+    }
+    const unsigned needed = type->isStructTy() ? 2 : 1;
+    if (needed <= free_registers) {
+      free_registers -= needed;
+    } else if (type->isStructTy()) {
+      llvm::BasicBlock& entry_block = ctx.entry_function->getEntryBlock();
+      llvm::IRBuilder<> entry_builder(&entry_block, entry_block.begin());
+      llvm::Value* copy = entry_builder.CreateAlloca(type);
+      ctx.builder.CreateStore((*values)[i], copy);
+      (*types)[i] = copy->getType();
+      (*values)[i] = copy;
+      in_memory.emplace_back(i, type);
+    }
+  }
+#endif
+  return in_memory;
+}
+
+}  // namespace
+
 Status CodeGen::Visit(FunctionNode& function_node) {
   std::vector<ValueType> args_type_list;
   std::vector<llvm::Type*> args_llvm_type_list;
@@ -55,6 +90,7 @@ Status CodeGen::Visit(FunctionNode& function_node) {
       } else {
         call_symbol_name = sign.ToString();
       }
+      const auto in_memory = PassInMemory(ctx_, &args_llvm_type_list, &args_llvm_value_list);
 
       llvm::Type* llvm_ret_type;
       JF_RETURN_NOT_OK(ValueTypeToLLVMType(ctx_, function_node.GetReturnType(), &llvm_ret_type));
@@ -63,11 +99,19 @@ Status CodeGen::Visit(FunctionNode& function_node) {
 
       llvm::FunctionCallee call_func_callee = ctx_.module.getOrInsertFunction(call_symbol_name, func_type);
 
+      llvm::CallInst* call = nullptr;
       if (function_node.GetReturnType() == ValueType::kVoid) {
-        ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list);
+        call = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list);
         value_ = nullptr;
       } else {
-        value_ = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list, "call_" + function_node.GetFuncName());
+        call = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list, "call_" + function_node.GetFuncName());
+        value_ = call;
+      }
+      auto* called_func = llvm::cast<llvm::Function>(call_func_callee.getCallee());
+      for (const auto& [index, type] : in_memory) {
+        const llvm::Attribute by_val = llvm::Attribute::getWithByValType(ctx_.context, type);
+        call->addParamAttr(index, by_val);
+        called_func->addParamAttr(index, by_val);
       }
     } break;
     default:
-- 
2.43.0


From 6e96f7fdf47ae2f2c6fcfee3eaa3104a467b41a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:51 +0000
Subject: [PATCH 24/27] fix: emit float constants from their own bits, keeping
 signalling NaNs

---
 src/codegen/const_value_codegen.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/codegen/const_value_codegen.cc b/src/codegen/const_value_codegen.cc
index 3ecf1fd..4756501 100644
--- a/src/codegen/const_value_codegen.cc
+++ b/src/codegen/const_value_codegen.cc
@@ -6,6 +6,7 @@
  */
 #include "codegen.h"
 #include "codegen/const_global_emit.h"
+#include "llvm/ADT/APFloat.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/GlobalVariable.h"
 #include "llvm/IR/Type.h"
@@ -47,9 +48,10 @@ struct MakeValueVisitor {
     return llvm::ConstantInt::get(llvm::Type::getInt64Ty(ctx_.context), v, true);
   }
 
-  llvm::Value *operator()(float v) const { return llvm::ConstantFP::get(llvm::Type::getFloatTy(ctx_.context), v); }
+  // Built from the value itself: converting a float through double would quiet a signalling NaN.
+  llvm::Value *operator()(float v) const { return llvm::ConstantFP::get(ctx_.context, llvm::APFloat(v)); }
 
-  llvm::Value *operator()(double v) const { return llvm::ConstantFP::get(llvm::Type::getDoubleTy(ctx_.context), v); }
+  llvm::Value *operator()(double v) const { return llvm::ConstantFP::get(ctx_.context, llvm::APFloat(v)); }
 
   llvm::Value *operator()(const std::string &v) const {
     llvm::Constant *data_ptr = EmitStringPayloadGlobal(ctx_, v);
-- 
2.43.0


From 88f7508a0c9a26406542e376ea7bfdeb777f1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 25/27] fix: keep the carets of a diagnostic under the
 construct on lines with tabs

---
 src/diagnostic.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic.cc b/src/diagnostic.cc
index 8c6b13e..4582ce2 100644
--- a/src/diagnostic.cc
+++ b/src/diagnostic.cc
@@ -99,7 +99,15 @@ std::string Diagnostic::Render() const {
     int caret_len = caret_end - caret_begin;
     caret_len = std::max(caret_len, 1);
 
-    os << "\n " << empty_gutter << " | " << std::string(caret_begin - 1, ' ')
+    // Repeat the line's own tabs, so that the carets stay under the construct at any tab width.
+    std::string padding(static_cast<size_t>(caret_begin - 1), ' ');
+    for (size_t i = 0; i < padding.size() && i < src_line.size(); ++i) {
+      if (src_line[i] == '\t') {
+        padding[i] = '\t';
+      }
+    }
+
+    os << "\n " << empty_gutter << " | " << padding
        << std::string(static_cast<size_t>(caret_len), '^');
   }
 
-- 
2.43.0


From 00d80fd5e620a75ccb7fdc9b1bd6abe37a4058c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 26/27] fix: forget the open blocks of a text that failed to
 parse

---
 athena/ast_builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index b6f6f39..bf0b3c5 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -20,6 +20,7 @@ using jitfusion::RefNode;
 Status ProgramAstBuilder::BuildExpression(const std::string& code, std::unique_ptr<ExecNode>* result) {
   statements_.clear();
   var2index_.clear();
+  block_stack_.clear();
   parser_error_message_.clear();
   custom_error_message_.clear();
   source_code_ = code;
@@ -40,6 +41,7 @@ Status ProgramAstBuilder::BuildPipeline(const std::string& code, std::unique_ptr
   std::vector<std::unique_ptr<ExecNode>> args;
   statements_.clear();
   var2index_.clear();
+  block_stack_.clear();
   parser_error_message_.clear();
   custom_error_message_.clear();
   source_code_ = code;
-- 
2.43.0


From 61bd770f80e33ee8cba0a20d09b97ed8f812ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 27/27] fix: extend 8- and 16-bit integer arguments of C
 functions by their signedness

---
 src/codegen/function_codegen.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/codegen/function_codegen.cc b/src/codegen/function_codegen.cc
index cb3eb2c..4a7e01a 100644
--- a/src/codegen/function_codegen.cc
+++ b/src/codegen/function_codegen.cc
@@ -108,6 +108,19 @@ Status CodeGen::Visit(FunctionNode& function_node) {
         value_ = call;
       }
       auto* called_func = llvm::cast<llvm::Function>(call_func_callee.getCallee());
+      // The caller extends 8- and 16-bit integers: clang compiles functions that rely on it.
+      for (unsigned i = 0; i < args_type_list.size(); ++i) {
+        llvm::Attribute::AttrKind extension = llvm::Attribute::None;
+        if (args_type_list[i] == ValueType::kI8 || args_type_list[i] == ValueType::kI16) {
+          extension = llvm::Attribute::SExt;
+        } else if (args_type_list[i] == ValueType::kU8 || args_type_list[i] == ValueType::kU16) {
+          extension = llvm::Attribute::ZExt;
+        } else {
+          continue;
+        }
+        call->addParamAttr(i, extension);
+        called_func->addParamAttr(i, extension);
+      }
       for (const auto& [index, type] : in_memory) {
         const llvm::Attribute by_val = llvm::Attribute::getWithByValType(ctx_.context, type);
         call->addParamAttr(index, by_val);
-- 
2.43.0

