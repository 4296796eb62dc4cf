From ab0d3e952c543ca018e4100b1439a138748e181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:28 +0000
Subject: [PATCH 01/39] fix: %empty no longer ends the rules section

mark_symbol() returned the value that tells read_grammar() it has met the
second %%, so everything after the first %empty was copied to the program
section.
---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 83ea4d5..fd16844 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -3572,7 +3572,7 @@ mark_symbol(byacc_t* S)
 	     ((c = S->cptr[6], !IS_IDENT(c))))
     {
 	S->cptr += 6;
-	return (1);
+	return (0);
     }
     else
 	syntax_error(S, S->lineno, S->line, S->cptr);
-- 
2.43.0


From 5e2729e0ca8b8a1ea8dbfc7282240dbfab9be6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 02/39] fix: emit yystos unconditionally with -r when
 destructors are used

The code file written by -r refers to yystos for %destructor, but the table
file guarded its definition by a macro that only the code file defines.
---
 byacc/output.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/byacc/output.c b/byacc/output.c
index 2867e5a..de81589 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -356,6 +356,9 @@ output_accessing_symbols(byacc_t* S)
     {
 	int i, j;
 	int *translate;
+	/* with -r, YYDESTRUCT_CALL is defined in the code file, which uses this
+	 * table from another compilation unit */
+	int guarded = !(S->rflag && S->destructor);
 
 	translate = TCMALLOC(int, S->nstates);
 	NO_SPACE(translate);
@@ -367,8 +370,9 @@ output_accessing_symbols(byacc_t* S)
 	    translate[i] = S->symbol_pval[gsymb];
 	}
 
-	putl_code(S, S->output_file,
-		  "#if defined(YYDESTRUCT_CALL) || defined(YYSTYPE_TOSTRING)\n");
+	if (guarded)
+	    putl_code(S, S->output_file,
+		      "#if defined(YYDESTRUCT_CALL) || defined(YYSTYPE_TOSTRING)\n");
 	/* yystos[] may be unused, depending on compile-time defines */
 	start_int_table(S, "stos", translate[0]);
 
@@ -388,8 +392,9 @@ output_accessing_symbols(byacc_t* S)
 
 	end_table(S);
 	FREE(translate);
-	putl_code(S, S->output_file,
-		  "#endif /* YYDESTRUCT_CALL || YYSTYPE_TOSTRING */\n");
+	if (guarded)
+	    putl_code(S, S->output_file,
+		      "#endif /* YYDESTRUCT_CALL || YYSTYPE_TOSTRING */\n");
     }
 }
 
-- 
2.43.0


From 71cb9baad0355adcf9e74d3b158bf288168217d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:01 +0000
Subject: [PATCH 03/39] fix: lemon's generated file header is a well-formed
 comment

---
 lemon/lemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3163026..21f1be6 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4955,7 +4955,7 @@ void ReportTable(
 
   fprintf(out,
      "/* This file is automatically generated by Lemon from input grammar\n"
-     "** source file \"%s\". */\n", lemp->filename); lineno += 2;
+     "** source file \"%s\"", lemp->filename); lineno++;
   if( lemp->nDefineUsed==0 ){
     fprintf(out, ".\n*/\n"); lineno += 2;
   }else{
@@ -4998,7 +4998,7 @@ void ReportTable(
   if( mhflag ){
     fprintf(out,"#if INTERFACE\n"); lineno++;
   }else{
-    fprintf(out,"#ifndef %s%s\n", prefix, lemp->symbols[1]->name);
+    fprintf(out,"#ifndef %s%s\n", prefix, lemp->symbols[1]->name); lineno++;
   }
   for(i=1; i<lemp->nterminal; i++){
     fprintf(out,"#define %s%-30s %2d\n",prefix,lemp->symbols[i]->name,i);
-- 
2.43.0


From 14229163cffa6bed5694d38e035ca2545f36d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:27 +0000
Subject: [PATCH 04/39] fix: lemon: a %nonassoc error is not lost to a
 reduction

---
 lemon/lemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 21f1be6..df9d167 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1321,6 +1321,7 @@ static int resolve_conflict(
     }else{
       assert( spx->prec==spy->prec && (spx->assoc==NONE || spx->assoc==PRECEDENCE));
       apx->type = ERROR;
+      apy->type = RD_RESOLVED;
     }
   }else if( apx->type==REDUCE && apy->type==REDUCE ){
     spx = apx->x.rp->precsym;
@@ -1335,6 +1336,9 @@ static int resolve_conflict(
     }else if( spx->prec<spy->prec ){
       apx->type = RD_RESOLVED;
     }
+  }else if( apx->type==ERROR && apy->type==REDUCE ){
+    /* %nonassoc already made the token an error in this state */
+    apy->type = RD_RESOLVED;
   }else{
     assert(
       apx->type==SH_RESOLVED ||
@@ -5612,7 +5616,7 @@ void CompressTables(struct lemon *lemp)
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==SHIFT ) break;
+      if( ap->type==SHIFT || ap->type==ERROR ) break;
       if( ap->type==REDUCE && ap->x.rp!=rbest ) break;
     }
     if( ap==0 ){
-- 
2.43.0


From eabf38127daae34b6b0404152a6575a3391a42c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:44 +0000
Subject: [PATCH 05/39] fix: lemon -r generates usable tables

---
 lemon/lemon.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index df9d167..6c1dbb5 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -226,7 +226,7 @@ void ReportOutput(struct lemon *);
 void ReportTable(struct lemon *, int);
 void ReportHeader(struct lemon *);
 void CompressTables(struct lemon *);
-void ResortStates(struct lemon *);
+void ResortStates(struct lemon *, int);
 
 /********** From the file "set.h" ****************************************/
 void  SetSize(struct lemon *, int);             /* All sets will be of size N */
@@ -1840,7 +1840,7 @@ int main(int argc, char **argv){
     /* Reorder and renumber the states so that states with fewer choices
     ** occur at the end.  This is an optimization that helps make the
     ** generated parser tables smaller. */
-    if( noResort==0 ) ResortStates(&lem);
+    ResortStates(&lem, noResort);
 
     /* Generate a report of the parser generated.  (the "y.output" file) */
     if( !quiet ) ReportOutput(&lem);
@@ -5243,7 +5243,6 @@ void ReportTable(
 
   /* Output the yy_shift_ofst[] table */
   n = lemp->nxstate;
-  while( n>0 && lemp->sorted[n-1]->iTknOfst==NO_OFFSET ) n--;
   fprintf(out, "#define YY_SHIFT_COUNT    (%d)\n", n-1); lineno++;
   fprintf(out, "#define YY_SHIFT_MIN      (%d)\n", mnTknOfst); lineno++;
   fprintf(out, "#define YY_SHIFT_MAX      (%d)\n", mxTknOfst); lineno++;
@@ -5699,9 +5698,11 @@ static int stateResortCompare(const void *a, const void *b){
 
 /*
 ** Renumber and resort states so that states with fewer choices
-** occur at the end.  Except, keep state 0 as the first state.
+** occur at the end.  Except, keep state 0 as the first state.  If
+** noResort is true, compute the action counts of all states but leave
+** the states in their original order.
 */
-void ResortStates(struct lemon *lemp)
+void ResortStates(struct lemon *lemp, int noResort)
 {
   int i;
   struct state *stp;
@@ -5727,12 +5728,13 @@ void ResortStates(struct lemon *lemp)
       }
     }
   }
+  lemp->nxstate = lemp->nstate;
+  if( noResort ) return;
   qsort(&lemp->sorted[1], lemp->nstate-1, sizeof(lemp->sorted[0]),
         stateResortCompare);
   for(i=0; i<lemp->nstate; i++){
     lemp->sorted[i]->statenum = i;
   }
-  lemp->nxstate = lemp->nstate;
   while( lemp->nxstate>1 && lemp->sorted[lemp->nxstate-1]->autoReduce ){
     lemp->nxstate--;
   }
-- 
2.43.0


From 2666275d39a4637af02101cb8af8a21ccf60940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 06/39] fix: lemon: a failed parse forgets its error count

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 8cc5789..fcee82e 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -970,6 +970,7 @@ void Parse(
       if( yypParser->yyerrcnt<0 ){
         yy_syntax_error(yypParser,yymajor,yyminor);
       }
+      yypParser->yyerrcnt = 3;
       yymx = yypParser->yytos->major;
       if( yymx==YYERRORSYMBOL || yyerrorhit ){
 #ifndef NDEBUG
@@ -998,7 +999,6 @@ void Parse(
           yy_shift(yypParser,yyact,YYERRORSYMBOL,yyminor);
         }
       }
-      yypParser->yyerrcnt = 3;
       yyerrorhit = 1;
       if( yymajor==YYNOCODE ) break;
       yyact = yypParser->yytos->stateno;
-- 
2.43.0


From 374e82d7a0aa5f7f3a6d0394e37203c821dd8dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:40 +0000
Subject: [PATCH 07/39] fix: lemon: default reductions must not expose fallback
 or wildcard actions

---
 lemon/lemon.c | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 6c1dbb5..f687e4e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5553,6 +5553,41 @@ void ReportHeader(struct lemon *lemp)
   return;
 }
 
+/* Return true if symbol sp has an action in state stp other than to
+** reduce by rule rp.
+*/
+static int hasOtherAction(
+  struct lemon *lemp,
+  struct state *stp,
+  struct symbol *sp,
+  struct rule *rp
+){
+  struct action *ap;
+  for(ap=stp->ap; ap; ap=ap->next){
+    if( ap->sp!=sp || compute_action(lemp, ap)<0 ) continue;
+    if( ap->type!=REDUCE || ap->x.rp!=rp ) return 1;
+  }
+  return 0;
+}
+
+/* Action ap of state stp reduces by the rule that is about to become the
+** default of the state.  Return true if the action has to stay in the table
+** nevertheless, because without it the parser would use the action of the
+** fallback token or of the wildcard instead of the default.
+*/
+static int hidesOtherAction(
+  struct lemon *lemp,
+  struct state *stp,
+  struct action *ap
+){
+  struct symbol *sp = ap->sp;
+  if( sp->fallback && hasOtherAction(lemp, stp, sp->fallback, ap->x.rp) ){
+    return 1;
+  }
+  if( lemp->wildcard==0 || sp->index==0 || sp==lemp->wildcard ) return 0;
+  return hasOtherAction(lemp, stp, lemp->wildcard, ap->x.rp);
+}
+
 /* Reduce the size of the action tables, if possible, by making use
 ** of defaults.
 **
@@ -5605,13 +5640,11 @@ void CompressTables(struct lemon *lemp)
 
     /* Combine matching REDUCE actions into a single default */
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==REDUCE && ap->x.rp==rbest ) break;
-    }
-    assert( ap );
-    ap->sp = Symbol_new(lemp, "{default}");
-    for(ap=ap->next; ap; ap=ap->next){
-      if( ap->type==REDUCE && ap->x.rp==rbest ) ap->type = NOT_USED;
+      if( ap->type!=REDUCE || ap->x.rp!=rbest ) continue;
+      if( !hidesOtherAction(lemp, stp, ap) ) ap->type = NOT_USED;
     }
+    Action_add(lemp, &stp->ap, REDUCE, Symbol_new(lemp, "{default}"),
+               (char*)rbest);
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-- 
2.43.0


From cd052a3ec4f9d8b444bb5c7b862f09f69ef75255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:16 +0000
Subject: [PATCH 08/39] fix: lemon: report errors again after three shifted
 tokens

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index fcee82e..9d95d64 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -967,7 +967,7 @@ void Parse(
       **    shifted successfully.
       **
       */
-      if( yypParser->yyerrcnt<0 ){
+      if( yypParser->yyerrcnt<=0 ){
         yy_syntax_error(yypParser,yymajor,yyminor);
       }
       yypParser->yyerrcnt = 3;
-- 
2.43.0


From dc16873dda66c14b6f37f1d9980989d440318e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:30 +0000
Subject: [PATCH 09/39] fix: lemon: the peak stack depth counts entries pushed
 by empty rules

---
 lemon/lempar.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 9d95d64..5ca9812 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -648,12 +648,6 @@ static void yy_shift(
 ){
   yyStackEntry *yytos;
   yypParser->yytos++;
-#ifdef YYTRACKMAXSTACKDEPTH
-  if( (int)(yypParser->yytos - yypParser->yystack)>yypParser->yyhwm ){
-    yypParser->yyhwm++;
-    assert( yypParser->yyhwm == (int)(yypParser->yytos - yypParser->yystack) );
-  }
-#endif
 #if YYSTACKDEPTH>0 
   if( yypParser->yytos>yypParser->yystackEnd ){
     yypParser->yytos--;
@@ -668,6 +662,12 @@ static void yy_shift(
       return;
     }
   }
+#endif
+#ifdef YYTRACKMAXSTACKDEPTH
+  if( (int)(yypParser->yytos - yypParser->yystack)>yypParser->yyhwm ){
+    yypParser->yyhwm++;
+    assert( yypParser->yyhwm == (int)(yypParser->yytos - yypParser->yystack) );
+  }
 #endif
   if( yyNewState > YY_MAX_SHIFT ){
     yyNewState += YY_MIN_REDUCE - YY_MIN_SHIFTREDUCE;
@@ -904,13 +904,6 @@ void Parse(
       ** if the RHS of the rule is empty.  This ensures that there is room
       ** enough on the stack to push the LHS value */
       if( yyRuleInfoNRhs[yyruleno]==0 ){
-#ifdef YYTRACKMAXSTACKDEPTH
-        if( (int)(yypParser->yytos - yypParser->yystack)>yypParser->yyhwm ){
-          yypParser->yyhwm++;
-          assert( yypParser->yyhwm ==
-                  (int)(yypParser->yytos - yypParser->yystack));
-        }
-#endif
 #if YYSTACKDEPTH>0 
         if( yypParser->yytos>=yypParser->yystackEnd ){
           yyStackOverflow(yypParser);
@@ -923,6 +916,13 @@ void Parse(
             break;
           }
         }
+#endif
+#ifdef YYTRACKMAXSTACKDEPTH
+        if( (int)(yypParser->yytos - yypParser->yystack)>=yypParser->yyhwm ){
+          yypParser->yyhwm++;
+          assert( yypParser->yyhwm ==
+                  (int)(yypParser->yytos - yypParser->yystack) + 1 );
+        }
 #endif
       }
       yyact = yy_reduce(yypParser,yyruleno,yymajor,yyminor ParseCTX_PARAM);
-- 
2.43.0


From 47203102cd5d1e05035433a00e5e0146fa3f27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:27 +0000
Subject: [PATCH 10/39] fix: lemon: unlabelled token classes are destroyed

---
 lemon/lemon.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f687e4e..692c429 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4138,7 +4138,7 @@ void emit_destructor_code(
 int has_destructor(struct symbol *sp, struct lemon *lemp)
 {
   int ret;
-  if( sp->type==TERMINAL ){
+  if( sp->type!=NONTERMINAL ){
     ret = lemp->tokendest!=0;
   }else{
     ret = lemp->vardest!=0 || sp->destructor!=0;
@@ -4146,6 +4146,14 @@ int has_destructor(struct symbol *sp, struct lemon *lemp)
   return ret;
 }
 
+/*
+** Return the code to hand to yy_destructor() for symbol sp.  A token class
+** stands for one of its tokens, all of which have the same destructor.
+*/
+static int destructor_index(struct symbol *sp){
+  return sp->type==MULTITERMINAL ? sp->subsym[0]->index : sp->index;
+}
+
 /*
 ** Append text to a dynamically allocated string.  If zText is 0 then
 ** reset the string to be empty again.  Always return the complete text
@@ -4250,7 +4258,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     if( has_destructor(rp->rhs[0],lemp) ){
       append_str(&sa_buf, 0,0,0,0);
       append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-                 rp->rhs[0]->index,1-rp->nrhs);
+                 destructor_index(rp->rhs[0]),1-rp->nrhs);
       rp->codePrefix = Strsafe(lemp, append_str(&sa_buf, 0,0,0,0));
       rp->noCode = 0;
     }
@@ -4386,7 +4394,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       }
     }else if( i>0 && has_destructor(rp->rhs[i],lemp) ){
       append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-         rp->rhs[i]->index,i-rp->nrhs+1);
+         destructor_index(rp->rhs[i]),i-rp->nrhs+1);
     }
   }
 
-- 
2.43.0


From 0bd6d1f861b5efa7c9f74e4d4e50d9f24c76034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:43 +0000
Subject: [PATCH 11/39] fix: lemon: the default destructor leaves the error
 symbol alone

---
 lemon/lemon.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 692c429..1de61ad 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4141,7 +4141,9 @@ int has_destructor(struct symbol *sp, struct lemon *lemp)
   if( sp->type!=NONTERMINAL ){
     ret = lemp->tokendest!=0;
   }else{
-    ret = lemp->vardest!=0 || sp->destructor!=0;
+    /* The value of the error symbol belongs to the token in error, so the
+    ** default destructor does not apply to it */
+    ret = (lemp->vardest!=0 && sp!=lemp->errsym) || sp->destructor!=0;
   }
   return ret;
 }
@@ -5387,7 +5389,7 @@ void ReportTable(
     int once = 1;
     for(i=0; i<lemp->nsymbol; i++){
       struct symbol *sp = lemp->symbols[i];
-      if( sp==0 || sp->type==TERMINAL ||
+      if( sp==0 || sp->type==TERMINAL || sp==lemp->errsym ||
           sp->index<=0 || sp->destructor!=0 ) continue;
       if( once ){
         fprintf(out, "      /* Default NON-TERMINAL Destructor */\n");lineno++;
-- 
2.43.0


From 34c2783118a7b2abff08eb34f19d7f358ed2b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:27 +0000
Subject: [PATCH 12/39] fix: lemon: end of input is never discarded during
 error recovery

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 5ca9812..4e5bafd 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -972,7 +972,7 @@ void Parse(
       }
       yypParser->yyerrcnt = 3;
       yymx = yypParser->yytos->major;
-      if( yymx==YYERRORSYMBOL || yyerrorhit ){
+      if( yymajor!=0 && (yymx==YYERRORSYMBOL || yyerrorhit) ){
 #ifndef NDEBUG
         if( yyTraceFILE ){
           fprintf(yyTraceFILE,"%sDiscard input token %s\n",
-- 
2.43.0


From e5f1d4021d3f313eee9a3255847bd74041084937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:41 +0000
Subject: [PATCH 13/39] fix: lemon: after a stack overflow the token is
 destroyed and the parser starts afresh

---
 lemon/lempar.c | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 4e5bafd..9cd2040 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -596,9 +596,15 @@ static YYACTIONTYPE yy_find_reduce_action(
 }
 
 /*
-** The following routine is called if the stack overflows.
+** The following routine is called if the stack overflows.  The token that
+** could not be processed is destroyed together with the stack.
 */
-static void yyStackOverflow(yyParser *yypParser){
+static void yyStackOverflow(
+  yyParser *yypParser,          /* The parser */
+  int yymajor,                  /* The major type of the current token */
+  ParseTOKENTYPE yyminor        /* The minor type of the current token */
+){
+   YYMINORTYPE yyminorunion;
    ParseARG_FETCH
    ParseCTX_FETCH
 #ifndef NDEBUG
@@ -612,6 +618,11 @@ static void yyStackOverflow(yyParser *yypParser){
 /******** Begin %stack_overflow code ******************************************/
 %%
 /******** End %stack_overflow code ********************************************/
+#ifndef YYNOERRORRECOVERY
+   yypParser->yyerrcnt = -1;
+#endif
+   yyminorunion.yy0 = yyminor;
+   yy_destructor(yypParser, (YYCODETYPE)yymajor, &yyminorunion);
    ParseARG_STORE /* Suppress warning about unused %extra_argument var */
    ParseCTX_STORE
 }
@@ -638,9 +649,10 @@ static void yyTraceShift(yyParser *yypParser, int yyNewState, const char *zTag){
 #endif
 
 /*
-** Perform a shift action.
+** Perform a shift action.  Return the number of errors: nonzero if there
+** is no room for another entry on the stack.
 */
-static void yy_shift(
+static int yy_shift(
   yyParser *yypParser,          /* The parser to be shifted */
   YYACTIONTYPE yyNewState,      /* The new state to shift in */
   YYCODETYPE yyMajor,           /* The major token to shift in */
@@ -651,15 +663,13 @@ static void yy_shift(
 #if YYSTACKDEPTH>0 
   if( yypParser->yytos>yypParser->yystackEnd ){
     yypParser->yytos--;
-    yyStackOverflow(yypParser);
-    return;
+    return 1;
   }
 #else
   if( yypParser->yytos>=&yypParser->yystack[yypParser->yystksz] ){
     if( yyGrowStack(yypParser) ){
       yypParser->yytos--;
-      yyStackOverflow(yypParser);
-      return;
+      return 1;
     }
   }
 #endif
@@ -677,6 +687,7 @@ static void yy_shift(
   yytos->major = yyMajor;
   yytos->minor.yy0 = yyMinor;
   yyTraceShift(yypParser, yyNewState, "Shift");
+  return 0;
 }
 
 /* For rule J, yyRuleInfoLhs[J] contains the symbol on the left-hand side
@@ -906,13 +917,13 @@ void Parse(
       if( yyRuleInfoNRhs[yyruleno]==0 ){
 #if YYSTACKDEPTH>0 
         if( yypParser->yytos>=yypParser->yystackEnd ){
-          yyStackOverflow(yypParser);
+          yyStackOverflow(yypParser,yymajor,yyminor);
           break;
         }
 #else
         if( yypParser->yytos>=&yypParser->yystack[yypParser->yystksz-1] ){
           if( yyGrowStack(yypParser) ){
-            yyStackOverflow(yypParser);
+            yyStackOverflow(yypParser,yymajor,yyminor);
             break;
           }
         }
@@ -927,7 +938,10 @@ void Parse(
       }
       yyact = yy_reduce(yypParser,yyruleno,yymajor,yyminor ParseCTX_PARAM);
     }else if( yyact <= YY_MAX_SHIFTREDUCE ){
-      yy_shift(yypParser,yyact,(YYCODETYPE)yymajor,yyminor);
+      if( yy_shift(yypParser,yyact,(YYCODETYPE)yymajor,yyminor) ){
+        yyStackOverflow(yypParser,yymajor,yyminor);
+        break;
+      }
 #ifndef YYNOERRORRECOVERY
       yypParser->yyerrcnt--;
 #endif
@@ -996,7 +1010,10 @@ void Parse(
 #endif
           yymajor = YYNOCODE;
         }else if( yymx!=YYERRORSYMBOL ){
-          yy_shift(yypParser,yyact,YYERRORSYMBOL,yyminor);
+          if( yy_shift(yypParser,yyact,YYERRORSYMBOL,yyminor) ){
+            yyStackOverflow(yypParser,yymajor,yyminor);
+            break;
+          }
         }
       }
       yyerrorhit = 1;
-- 
2.43.0


From 86ac00e46749faeb1e3a8a72c9035dac0158e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:15 +0000
Subject: [PATCH 14/39] fix: lemon -S works for rules whose precedence mark -u
 ignores

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 1de61ad..8b059a9 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4778,7 +4778,7 @@ void ReportSQL(
       " %s(%d,%d,",
       (b > 0) ? "," : " ", rp->index, rp->lhs->index
     );
-    if(rp->precsym_decl) {
+    if(rp->precsym_decl && rp->precsym) {
         fprintf(sql,"%d)", rp->precsym->index);
     }
     else fprintf(sql,"NULL)");
-- 
2.43.0


From 7249f4219650c8fc7a2e89d25502103459f54016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 15/39] fix: lemon: unit rules of the error symbol and of
 destructible symbols are reduced

---
 lemon/lemon.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 8b059a9..41954b5 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -471,6 +471,7 @@ struct lemon {
   int set_size;
   int preccounter;
 };
+int has_destructor(struct symbol *, struct lemon *);
 
 #define MemoryCheck(X) if((X)==0){ \
   extern void memory_error(); \
@@ -5698,6 +5699,9 @@ void CompressTables(struct lemon *lemp)
       rp = ap->x.rp;
       if( rp->noCode==0 ) continue;
       if( rp->nrhs!=1 ) continue;
+      /* The error symbol must reach the stack as the LHS of the rule, and a
+      ** value with a destructor must be destroyed by the reduction */
+      if( ap->sp==lemp->errsym || has_destructor(ap->sp,lemp) ) continue;
 #if 1
       /* Only apply this optimization to non-terminals.  It would be OK to
       ** apply it to terminal symbols too, but that makes the parser tables
-- 
2.43.0


From 18a4e6d1b72efd3b5b116a1c0b5b1bb1021221fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 16/39] fix: lemon: every action set gets an offset of its own

---
 lemon/lemon.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 41954b5..b98d54f 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -731,9 +731,11 @@ int acttab_insert(acttab *p, int makeItSafe){
 
   /* Make sure we have enough space to hold the expanded action table
   ** in the worst case.  The worst case occurs if the transaction set
-  ** must be appended to the current action table
+  ** must be appended to the current action table.  The offset returned for
+  ** an appended set may have to be past the end of the table as well, so
+  ** that no entry of the table is mistaken for one of the set's.
   */
-  n = p->nsymbol + 1;
+  n = 2*(p->nsymbol + 1);
   if( p->nAction + n >= p->nActionAlloc ){
     int oldAlloc = p->nActionAlloc;
     p->nActionAlloc = p->nAction + n + p->nActionAlloc + 20;
@@ -789,10 +791,10 @@ int acttab_insert(acttab *p, int makeItSafe){
   if( i<end ){
     /* Look for holes in the aAction[] table that fit the current
     ** aLookahead[] transaction.  Leave i set to the offset of the hole.
-    ** If no holes are found, i is left at p->nAction, which means the
-    ** transaction will be appended. */
+    ** The space allocated above guarantees that such an offset exists: if
+    ** there is no hole, the transaction is appended. */
     i = makeItSafe ? p->mnLookahead : 0;
-    for(; i<p->nActionAlloc - p->mxLookahead; i++){
+    for(; i + (p->mxLookahead - p->mnLookahead)<p->nActionAlloc; i++){
       if( p->aAction[i].lookahead<0 ){
         for(j=0; j<p->nLookahead; j++){
           k = p->aLookahead[j].lookahead - p->mnLookahead + i;
-- 
2.43.0


From f12601a57e67884afcd37ad95efa0587f5d6f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:08 +0000
Subject: [PATCH 17/39] fix: byacc: a failed read or write makes the run fail

---
 byacc/defs.h   |  1 +
 byacc/main.c   | 32 ++++++++++++++++++++++++++++++--
 byacc/output.c |  6 +++---
 3 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index d0f441d..58a2ea6 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -740,6 +740,7 @@ extern void show_shifts(byacc_t* S);
 /* main.c */
 extern void *allocate(byacc_t* S, size_t n);
 extern GCC_NORETURN void done(byacc_t* S, int k);
+extern void rewind_tmpfile(byacc_t* S, FILE * fp);
 
 /* mkpar.c */
 extern void free_parser(byacc_t* S);
diff --git a/byacc/main.c b/byacc/main.c
index c28f85c..730e9ad 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -36,13 +36,17 @@ static char oflag;
 
 /*
  * Since fclose() is called via the signal handler, it might die.  Don't loop
- * if there is a problem closing a file.
+ * if there is a problem closing a file.  Data which could not be read or
+ * written at any time up to now makes the run a failure.
  */
 #define DO_CLOSE(fp) \
 	if (fp != 0) { \
 	    FILE *use = fp; \
 	    fp = 0; \
-	    fclose(use); \
+	    if (ferror(use)) \
+		io_failed = 1; \
+	    if (fclose(use) != 0) \
+		io_failed = 1; \
 	}
 
 static int got_intr = 0;
@@ -50,11 +54,17 @@ static int got_intr = 0;
 void
 done(byacc_t* S, int k)
 {
+    int io_failed = 0;
+
     DO_CLOSE(S->input_file);
     DO_CLOSE(S->output_file);
     DO_CLOSE(S->ebnf_file);
     DO_CLOSE(S->lemon_file);
     DO_CLOSE(S->naked_file);
+    DO_CLOSE(S->nakedq_file);
+    DO_CLOSE(S->unicc_file);
+    DO_CLOSE(S->carburetta_file);
+    DO_CLOSE(S->sql_file);
     if (S->iflag)
 	DO_CLOSE(S->externs_file);
     if (S->rflag)
@@ -67,6 +77,13 @@ done(byacc_t* S, int k)
     DO_CLOSE(S->union_file);
     DO_CLOSE(S->verbose_file);
 
+    if (io_failed)
+    {
+	fprintf(stderr, "%s: f - error reading or writing files\n", S->myname);
+	if (k == EXIT_SUCCESS)
+	    k = 2;
+    }
+
     if (got_intr)
 	_exit(EXIT_FAILURE);
 
@@ -828,6 +845,17 @@ open_tmpfile(byacc_t* S, const char *label)
 #undef MY_FMT
 }
 
+/*
+ * Prepare to read back a temporary file: everything written to it must really
+ * be there.  (A plain rewind() would forget about earlier write-errors).
+ */
+void
+rewind_tmpfile(byacc_t* S, FILE * fp)
+{
+    if (fflush(fp) != 0 || ferror(fp) || fseek(fp, 0L, SEEK_SET) != 0)
+	fatal(S, "cannot write temporary file");
+}
+
 static void
 open_files(byacc_t* S)
 {
diff --git a/byacc/output.c b/byacc/output.c
index de81589..b0fc471 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -1274,7 +1274,7 @@ output_defines(byacc_t* S, FILE * fp)
 	{
 	    if (S->union_file != 0)
 	    {
-		rewind(S->union_file);
+		rewind_tmpfile(S, S->union_file);
 		while ((c = getc(S->union_file)) != EOF)
 		    putc_code(S, fp, c);
 	    }
@@ -1299,7 +1299,7 @@ output_stored_text(byacc_t* S, FILE * fp)
 
     if (S->text_file == NULL)
 	open_error(S, "text_file");
-    rewind(S->text_file);
+    rewind_tmpfile(S, S->text_file);
     in = S->text_file;
     if ((c = getc(in)) == EOF)
 	return;
@@ -1669,7 +1669,7 @@ output_semantic_actions(byacc_t* S)
     int state;
     char line_state[20];
 
-    rewind(S->action_file);
+    rewind_tmpfile(S, S->action_file);
     if ((c = getc(S->action_file)) == EOF)
 	return;
 
-- 
2.43.0


From 0c8adc0f47194befc3d71ba6809ba2cde2106bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:27 +0000
Subject: [PATCH 18/39] fix: byacc: check growable strings for running out of
 memory, grow the print buffer

---
 byacc/defs.h    |  6 +++---
 byacc/mstring.c | 24 ++++++++++++------------
 byacc/reader.c  | 32 ++++++++++++++++----------------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index 58a2ea6..b24cab3 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -754,9 +754,9 @@ struct mstring
 
 extern void msprintf(byacc_t* S, struct mstring *, const char *, ...) GCC_PRINTFLIKE(3,4);
 extern int mputchar(struct mstring *, int);
-extern struct mstring *msnew(void);
-extern struct mstring *msrenew(char *);
-extern char *msdone(struct mstring *);
+extern struct mstring *msnew(byacc_t* S);
+extern struct mstring *msrenew(byacc_t* S, char *);
+extern char *msdone(byacc_t* S, struct mstring *);
 extern int strnscmp(const char *, const char *);
 extern unsigned int strnshash(const char *);
 
diff --git a/byacc/mstring.c b/byacc/mstring.c
index a031744..86de4e9 100644
--- a/byacc/mstring.c
+++ b/byacc/mstring.c
@@ -36,16 +36,12 @@ msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 	va_start(args, fmt);
 	len = (size_t)vsnprintf(S->fs5_buf_ptr, S->fs5_buf_len, fmt, args);
 	va_end(args);
-	if ((changed = (len > S->fs5_buf_len)) != 0)
+	if ((changed = (len >= S->fs5_buf_len)) != 0)
 	{
-	    char *new_ptr = realloc(S->fs5_buf_ptr, (S->fs5_buf_len * 3) / 2);
-	    if (new_ptr == 0)
-	    {
-		free(S->fs5_buf_ptr);
-		S->fs5_buf_ptr = 0;
-		return;
-	    }
+	    char *new_ptr = realloc(S->fs5_buf_ptr, len + 1);
+	    NO_SPACE(new_ptr);
 	    S->fs5_buf_ptr = new_ptr;
+	    S->fs5_buf_len = len + 1;
 	}
     }
     while (changed);
@@ -108,7 +104,7 @@ mputchar(struct mstring *s, int ch)
 }
 
 struct mstring *
-msnew(void)
+msnew(byacc_t* S)
 {
     struct mstring *n = TMALLOC(struct mstring, 1);
 
@@ -124,16 +120,18 @@ msnew(void)
 	    n = 0;
 	}
     }
+    NO_SPACE(n);
     return n;
 }
 
 struct mstring *
-msrenew(char *value)
+msrenew(byacc_t* S, char *value)
 {
     struct mstring *r = 0;
     if (value != 0)
     {
-	r = msnew();
+	r = msnew(S);
+	free(r->base);
 	r->base = value;
 	r->end = value + strlen(value);
 	r->ptr = r->end;
@@ -141,8 +139,9 @@ msrenew(char *value)
     return r;
 }
 
+/* appending to a string which ran out of space leaves it without a base */
 char *
-msdone(struct mstring *s)
+msdone(byacc_t* S, struct mstring *s)
 {
     char *r = 0;
     if (s)
@@ -150,6 +149,7 @@ msdone(struct mstring *s)
 	mputc(s, 0);
 	r = s->base;
 	free(s);
+	NO_SPACE(r);
     }
     return r;
 }
diff --git a/byacc/reader.c b/byacc/reader.c
index fd16844..6f4ca24 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -621,7 +621,7 @@ copy_ident(byacc_t* S)
 static char *
 copy_string(byacc_t* S, int quote)
 {
-    struct mstring *temp = msnew();
+    struct mstring *temp = msnew(S);
     struct ainfo a;
 
     begin_ainfo(a, 1);
@@ -634,7 +634,7 @@ copy_string(byacc_t* S, int quote)
 	if (c == quote)
 	{
 	    end_ainfo(a);
-	    return msdone(temp);
+	    return msdone(S, temp);
 	}
 	if (c == '\n')
 	    unterminated_string(S, &a);
@@ -655,7 +655,7 @@ copy_string(byacc_t* S, int quote)
 static char *
 copy_comment(byacc_t* S)
 {
-    struct mstring *temp = msnew();
+    struct mstring *temp = msnew(S);
     int c;
 
     c = *S->cptr;
@@ -688,7 +688,7 @@ copy_comment(byacc_t* S)
 		mputc(temp, '/');
 		++S->cptr;
 		end_ainfo(a);
-		return msdone(temp);
+		return msdone(S, temp);
 	    }
 	    if (c == '\n')
 	    {
@@ -698,7 +698,7 @@ copy_comment(byacc_t* S)
 	    }
 	}
     }
-    return msdone(temp);
+    return msdone(S, temp);
 }
 
 static int
@@ -782,11 +782,11 @@ copy_code(byacc_t* S)
     S->code_lines[pos].name = ygv_code_keys[pos];
     if ((cline = (int)S->code_lines[pos].num) != 0)
     {
-	code_mstr = msrenew(S->code_lines[pos].lines);
+	code_mstr = msrenew(S, S->code_lines[pos].lines);
     }
     else
     {
-	code_mstr = msnew();
+	code_mstr = msnew(S);
     }
     cline++;
     if (!S->lflag)
@@ -819,7 +819,7 @@ copy_code(byacc_t* S)
 		    mputc(code_mstr, '\n');
 		    cline++;
 		}
-		S->code_lines[pos].lines = msdone(code_mstr);
+		S->code_lines[pos].lines = msdone(S, code_mstr);
 		S->code_lines[pos].num = (size_t)cline;
 		return;
 	    }
@@ -2173,7 +2173,7 @@ expand_rules(byacc_t* S)
 static char *
 copy_args(byacc_t* S, int *alen)
 {
-    struct mstring *s = msnew();
+    struct mstring *s = msnew(S);
     int depth = 0, len = 1;
     char c, quote = 0;
     struct ainfo a;
@@ -2223,7 +2223,7 @@ copy_args(byacc_t* S, int *alen)
     if (alen)
 	*alen = len;
     end_ainfo(a);
-    return msdone(s);
+    return msdone(S, s);
 }
 
 static char *
@@ -2338,7 +2338,7 @@ static char *
 compile_arg(byacc_t* S, char **theptr, char *yyvaltag)
 {
     char *p = *theptr;
-    struct mstring *c = msnew();
+    struct mstring *c = msnew(S);
     int i, n;
     Value_t *offsets = NULL, maxoffset;
     bucket **rhs;
@@ -2436,7 +2436,7 @@ compile_arg(byacc_t* S, char **theptr, char *yyvaltag)
     *theptr = p;
     if (maxoffset > 0)
 	FREE(offsets);
-    return msdone(c);
+    return msdone(S, c);
 }
 
 static int
@@ -3255,7 +3255,7 @@ get_code(byacc_t* S, struct ainfo *a, const char *loc)
     int c;
     int depth;
     char *tag;
-    struct mstring *code_mstr = msnew();
+    struct mstring *code_mstr = msnew(S);
 
     if (!S->lflag)
 	msprintf(S, code_mstr, S->line_format, S->lineno, S->input_file_name);
@@ -3362,7 +3362,7 @@ get_code(byacc_t* S, struct ainfo *a, const char *loc)
 	goto loop;
     }
   out:
-    return msdone(code_mstr);
+    return msdone(S, code_mstr);
 }
 
 static void
@@ -3463,7 +3463,7 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
     int c;
     int quote;
     int depth;
-    struct mstring *new_code = msnew();
+    struct mstring *new_code = msnew(S);
     char *codeptr = code;
 
     depth = 0;
@@ -3499,7 +3499,7 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
     case R_CURL:
 	if (--depth > 0)
 	    goto loop;
-	return msdone(new_code);
+	return msdone(S, new_code);
 
     case '\'':
     case '"':
-- 
2.43.0


From 1f60242de4ce367555fed1e84976d9be3c52ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:15 +0000
Subject: [PATCH 19/39] fix: byacc: -g with -o used the file prefix after
 freeing it

---
 byacc/main.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/byacc/main.c b/byacc/main.c
index 730e9ad..8b88af3 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -33,6 +33,7 @@ static MY_TMPFILES *my_tmpfiles;
 #endif /* USE_MKSTEMP */
 
 static char oflag;
+static char pflag;
 
 /*
  * Since fclose() is called via the signal handler, it might die.  Don't loop
@@ -102,6 +103,9 @@ done(byacc_t* S, int k)
     if (oflag)
 	DO_FREE(S->output_file_name);
 
+    if (pflag)
+	DO_FREE(S->file_prefix);
+
     if (S->vflag)
 	DO_FREE(S->verbose_file_name);
 
@@ -625,6 +629,7 @@ create_file_names(byacc_t* S)
 	len = (size_t)(suffix - S->output_file_name);
 	S->file_prefix = TMALLOC(char, len + 1);
 	NO_SPACE(S->file_prefix);
+	pflag = 1;
 	strncpy(S->file_prefix, S->output_file_name, len)[len] = 0;
     }
     else
@@ -699,10 +704,6 @@ create_file_names(byacc_t* S)
 	CREATE_FILE_NAME(S->sql_file_name, SQL_SUFFIX);
     }
 
-    if (suffix != NULL)
-    {
-	FREE(S->file_prefix);
-    }
 }
 
 #if USE_MKSTEMP
-- 
2.43.0


From 1c5fb29ffcddbaa5e3940e2361f5b869ca33c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:04 +0000
Subject: [PATCH 20/39] fix: byacc: no signal or failure leaves temporary files
 behind

---
 byacc/main.c | 82 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 22 deletions(-)

diff --git a/byacc/main.c b/byacc/main.c
index 8b88af3..ee7f10b 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -50,7 +50,8 @@ static char pflag;
 		io_failed = 1; \
 	}
 
-static int got_intr = 0;
+static volatile sig_atomic_t got_intr = 0;
+static volatile sig_atomic_t tmpfiles_busy = 0;
 
 void
 done(byacc_t* S, int k)
@@ -144,12 +145,21 @@ done(byacc_t* S, int k)
     exit(k);
 }
 
+static void remove_tmpfiles(void);
+
+/*
+ * The registry of temporary files may be half-changed while it is busy; in
+ * that case the signal is acted upon as soon as the change is complete.
+ */
 static void
 onintr(int sig GCC_UNUSED)
 {
     got_intr = 1;
-    //done(S, EXIT_FAILURE);
-    exit(EXIT_FAILURE);
+    if (!tmpfiles_busy)
+    {
+	remove_tmpfiles();
+	_exit(EXIT_FAILURE);
+    }
 }
 
 static void
@@ -706,10 +716,36 @@ create_file_names(byacc_t* S)
 
 }
 
+static void
+remove_tmpfiles(void)
+{
 #if USE_MKSTEMP
+    MY_TMPFILES *item;
+
+    for (item = my_tmpfiles; item != 0; item = item->next)
+    {
+	(void)chmod(item->name, 0644);
+	(void)unlink(item->name);
+    }
+#endif
+}
+
+#if USE_MKSTEMP
+static void
+busy_tmpfiles(int busy)
+{
+    tmpfiles_busy = busy;
+    if (!busy && got_intr)
+    {
+	remove_tmpfiles();
+	_exit(EXIT_FAILURE);
+    }
+}
+
 static void
 close_tmpfiles(void)
 {
+    busy_tmpfiles(1);
     while (my_tmpfiles != 0)
     {
 	MY_TMPFILES *next = my_tmpfiles->next;
@@ -722,6 +758,7 @@ close_tmpfiles(void)
 
 	my_tmpfiles = next;
     }
+    busy_tmpfiles(0);
 }
 
 #ifndef HAVE_MKSTEMP
@@ -797,44 +834,42 @@ open_tmpfile(byacc_t* S, const char *label)
      * string-lengths as well.
      */
     name = malloc(strlen(tmpdir) + sizeof(MY_FMT) + strlen(label));
+    NO_SPACE(name);
 
     result = 0;
-    if (name != 0)
     {
 	int fd;
 	const char *mark;
+	MY_TMPFILES *item = NEW(MY_TMPFILES);
+	mode_t save_umask;
 
-	mode_t save_umask = umask(0177);
-
+	NO_SPACE(item);
 	if ((mark = strrchr(label, '_')) == 0)
 	    mark = label + strlen(label);
 
 	sprintf(name, MY_FMT, tmpdir, (int)(mark - label), label);
+
+	busy_tmpfiles(1);
+	save_umask = umask(0177);
 	fd = mkstemp(name);
-	if (fd >= 0
-	    && (result = fdopen(fd, "w+")) != 0)
+	(void)umask(save_umask);
+	if (fd >= 0)
 	{
-	    MY_TMPFILES *item;
-
-	    if (my_tmpfiles == 0)
-	    {
-		atexit(close_tmpfiles);
-	    }
-
-	    item = NEW(MY_TMPFILES);
-	    NO_SPACE(item);
-
 	    item->name = name;
-	    NO_SPACE(item->name);
-
 	    item->next = my_tmpfiles;
 	    my_tmpfiles = item;
 	}
-	else
+	busy_tmpfiles(0);
+
+	if (fd < 0)
 	{
 	    FREE(name);
+	    FREE(item);
+	}
+	else if ((result = fdopen(fd, "w+")) == 0)
+	{
+	    (void)close(fd);
 	}
-	(void)umask(save_umask);
     }
 #else
     result = tmpfile();
@@ -986,6 +1021,9 @@ main(int argc, char *argv[])
     S.exit_code = EXIT_SUCCESS;
     S.line_format = ygv_line_format;
 
+#if USE_MKSTEMP
+    atexit(close_tmpfiles);
+#endif
     set_signals();
     getargs(&S, argc, argv);
     open_files(&S);
-- 
2.43.0


From 7e17233a0de655b7512356ab574b58615a9b9be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 21/39] fix: lemon: running out of memory is reported instead
 of being overlooked

---
 lemon/lemon.c | 61 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b98d54f..b22cc23 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -49,6 +49,23 @@ extern int access(const char *path, int mode);
 #endif
 
 extern void memory_error();
+
+/* Allocators for the places that cannot go on without the memory */
+static void *checked_malloc(size_t n){
+  void *p = malloc(n);
+  if( p==0 ) memory_error();
+  return p;
+}
+static void *checked_calloc(size_t nElem, size_t szElem){
+  void *p = calloc(nElem, szElem);
+  if( p==0 ) memory_error();
+  return p;
+}
+static void *checked_realloc(void *pOld, size_t n){
+  void *p = realloc(pOld, n);
+  if( p==0 ) memory_error();
+  return p;
+}
 static char *msort(char*,char**,int(*)(const char*,const char*));
 
 /*
@@ -1369,7 +1386,7 @@ static int resolve_conflict(
 
 /* Return a pointer to a new configuration */
 PRIVATE struct config *newconfig(struct lemon *lemp){
-  return (struct config*)calloc(1, sizeof(struct config));
+  return (struct config*)checked_calloc(1, sizeof(struct config));
 }
 
 /* The configuration "old" is no longer used */
@@ -2478,7 +2495,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
     case IN_RHS:
       if( x[0]=='.' ){
         struct rule *rp;
-        rp = (struct rule *)calloc( sizeof(struct rule) +
+        rp = (struct rule *)checked_calloc( sizeof(struct rule) +
              sizeof(struct symbol*)*psp->nrhs + sizeof(char*)*psp->nrhs, 1);
         if( rp==0 ){
           ErrorMsg(psp->filename,psp->tokenlineno,
@@ -2530,18 +2547,18 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         struct symbol *msp = psp->rhs[psp->nrhs-1];
         if( msp->type!=MULTITERMINAL ){
           struct symbol *origsp = msp;
-          msp = (struct symbol *) calloc(1,sizeof(*msp));
+          msp = (struct symbol *) checked_calloc(1,sizeof(*msp));
           memset(msp, 0, sizeof(*msp));
           msp->type = MULTITERMINAL;
           msp->nsubsym = 1;
           msp->id = lem->lastSymId++;
-          msp->subsym = (struct symbol **) calloc(1,sizeof(struct symbol*));
+          msp->subsym = (struct symbol **) checked_calloc(1,sizeof(struct symbol*));
           msp->subsym[0] = origsp;
           msp->name = origsp->name;
           psp->rhs[psp->nrhs-1] = msp;
         }
         msp->nsubsym++;
-        msp->subsym = (struct symbol **) realloc(msp->subsym,
+        msp->subsym = (struct symbol **) checked_realloc(msp->subsym,
           sizeof(struct symbol*)*msp->nsubsym);
         msp->subsym[msp->nsubsym-1] = Symbol_new(lem, &x[1]);
         if( ISLOWER(x[1]) || ISLOWER(msp->subsym[0]->name[0]) ){
@@ -2763,7 +2780,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
           nLine = lemonStrlen(zLine);
           n += nLine + lemonStrlen(psp->filename) + nBack;
         }
-        *psp->declargslot = (char *) realloc(*psp->declargslot, n);
+        *psp->declargslot = (char *) checked_realloc(*psp->declargslot, n);
         zBuf = *psp->declargslot + nOld;
         if( addLineMacro ){
           if( nOld && zBuf[-1]!='\n' ){
@@ -2877,7 +2894,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
       }else if( ISUPPER(x[0]) || ((x[0]=='|' || x[0]=='/') && ISUPPER(x[1])) ){
         struct symbol *msp = psp->tkclass;
         msp->nsubsym++;
-        msp->subsym = (struct symbol **) realloc(msp->subsym,
+        msp->subsym = (struct symbol **) checked_realloc(msp->subsym,
           sizeof(struct symbol*)*msp->nsubsym);
         if( !ISUPPER(x[0]) ) x++;
         msp->subsym[msp->nsubsym-1] = Symbol_new(lem, x);
@@ -4195,7 +4212,7 @@ PRIVATE char *append_str(StrAppendBuffer *sa_buf, const char *zText, int n, int
   }
   if( (int) (n+sizeof(zInt)*2+sa_buf->used) >= sa_buf->alloced ){
     sa_buf->alloced = n + sizeof(zInt)*2 + sa_buf->used + 200;
-    sa_buf->z = (char *) realloc(sa_buf->z,  sa_buf->alloced);
+    sa_buf->z = (char *) checked_realloc(sa_buf->z,  sa_buf->alloced);
   }
   if( sa_buf->z==0 ) return sa_buf->empty;
   while( n-- > 0 ){
@@ -5906,11 +5923,11 @@ typedef struct s_x1node {
 /* Allocate a new associative array */
 void Strsafe_init(struct lemon *lemp){
   if( lemp->x1a ) return;
-  lemp->x1a = (struct s_x1*)malloc( sizeof(struct s_x1) );
+  lemp->x1a = (struct s_x1*)checked_malloc( sizeof(struct s_x1) );
   if( lemp->x1a ){
     lemp->x1a->size = 1024;
     lemp->x1a->count = 0;
-    lemp->x1a->tbl = (x1node*)calloc(1024, sizeof(x1node) + sizeof(x1node*));
+    lemp->x1a->tbl = (x1node*)checked_calloc(1024, sizeof(x1node) + sizeof(x1node*));
     if( lemp->x1a->tbl==0 ){
       free(lemp->x1a);
       lemp->x1a = 0;
@@ -5957,7 +5974,7 @@ int Strsafe_insert(struct lemon *lemp, const char *data)
     struct s_x1 array;
     array.size = arrSize = lemp->x1a->size*2;
     array.count = lemp->x1a->count;
-    array.tbl = (x1node*)calloc(arrSize, sizeof(x1node) + sizeof(x1node*));
+    array.tbl = (x1node*)checked_calloc(arrSize, sizeof(x1node) + sizeof(x1node*));
     if( array.tbl==0 ) return 0;  /* Fail due to malloc failure */
     array.ht = (x1node**)&(array.tbl[arrSize]);
     for(i=0; i<arrSize; i++) array.ht[i] = 0;
@@ -6082,11 +6099,11 @@ typedef struct s_x2node {
 /* Allocate a new associative array */
 void Symbol_init(struct lemon *lem){
   if( lem->x2a ) return;
-  lem->x2a = (struct s_x2*)malloc( sizeof(struct s_x2) );
+  lem->x2a = (struct s_x2*)checked_malloc( sizeof(struct s_x2) );
   if( lem->x2a ){
     lem->x2a->size = 128;
     lem->x2a->count = 0;
-    lem->x2a->tbl = (x2node*)calloc(128, sizeof(x2node) + sizeof(x2node*));
+    lem->x2a->tbl = (x2node*)checked_calloc(128, sizeof(x2node) + sizeof(x2node*));
     if( lem->x2a->tbl==0 ){
       free(lem->x2a);
       lem->x2a = 0;
@@ -6135,7 +6152,7 @@ int Symbol_insert(struct lemon *lem, struct symbol *data, const char *key)
     struct s_x2 array;
     array.size = arrSize = lem->x2a->size*2;
     array.count = lem->x2a->count;
-    array.tbl = (x2node*)calloc(arrSize, sizeof(x2node) + sizeof(x2node*));
+    array.tbl = (x2node*)checked_calloc(arrSize, sizeof(x2node) + sizeof(x2node*));
     if( array.tbl==0 ) return 0;  /* Fail due to malloc failure */
     array.ht = (x2node**)&(array.tbl[arrSize]);
     for(i=0; i<arrSize; i++) array.ht[i] = 0;
@@ -6212,7 +6229,7 @@ struct symbol **Symbol_arrayof(struct lemon *lem)
   int i,arrSize;
   if( lem->x2a==0 ) return 0;
   arrSize = lem->x2a->count;
-  array = (struct symbol **)calloc(arrSize, sizeof(struct symbol *));
+  array = (struct symbol **)checked_calloc(arrSize, sizeof(struct symbol *));
   if( array ){
     for(i=0; i<arrSize; i++) array[i] = lem->x2a->tbl[i].data;
   }
@@ -6290,11 +6307,11 @@ typedef struct s_x3node {
 /* Allocate a new associative array */
 void State_init(struct lemon *lem){
   if( lem->x3a ) return;
-  lem->x3a = (struct s_x3*)malloc( sizeof(struct s_x3) );
+  lem->x3a = (struct s_x3*)checked_malloc( sizeof(struct s_x3) );
   if( lem->x3a ){
     lem->x3a->size = 128;
     lem->x3a->count = 0;
-    lem->x3a->tbl = (x3node*)calloc(128, sizeof(x3node) + sizeof(x3node*));
+    lem->x3a->tbl = (x3node*)checked_calloc(128, sizeof(x3node) + sizeof(x3node*));
     if( lem->x3a->tbl==0 ){
       free(lem->x3a);
       lem->x3a = 0;
@@ -6340,7 +6357,7 @@ int State_insert(struct lemon *lem, struct state *data, struct config *key)
     struct s_x3 array;
     array.size = arrSize = lem->x3a->size*2;
     array.count = lem->x3a->count;
-    array.tbl = (x3node*)calloc(arrSize, sizeof(x3node) + sizeof(x3node*));
+    array.tbl = (x3node*)checked_calloc(arrSize, sizeof(x3node) + sizeof(x3node*));
     if( array.tbl==0 ) return 0;  /* Fail due to malloc failure */
     array.ht = (x3node**)&(array.tbl[arrSize]);
     for(i=0; i<arrSize; i++) array.ht[i] = 0;
@@ -6397,7 +6414,7 @@ struct state **State_arrayof(struct lemon *lem)
   int i,arrSize;
   if( lem->x3a==0 ) return 0;
   arrSize = lem->x3a->count;
-  array = (struct state **)calloc(arrSize, sizeof(struct state *));
+  array = (struct state **)checked_calloc(arrSize, sizeof(struct state *));
   if( array ){
     for(i=0; i<arrSize; i++) array[i] = lem->x3a->tbl[i].data;
   }
@@ -6436,11 +6453,11 @@ typedef struct s_x4node {
 /* Allocate a new associative array */
 void Configtable_init(struct lemon *lem){
   if( lem->x4a ) return;
-  lem->x4a = (struct s_x4*)malloc( sizeof(struct s_x4) );
+  lem->x4a = (struct s_x4*)checked_malloc( sizeof(struct s_x4) );
   if( lem->x4a ){
     lem->x4a->size = 64;
     lem->x4a->count = 0;
-    lem->x4a->tbl = (x4node*)calloc(64, sizeof(x4node) + sizeof(x4node*));
+    lem->x4a->tbl = (x4node*)checked_calloc(64, sizeof(x4node) + sizeof(x4node*));
     if( lem->x4a->tbl==0 ){
       free(lem->x4a);
       lem->x4a = 0;
@@ -6488,7 +6505,7 @@ int Configtable_insert(struct lemon *lem, struct config *data)
     struct s_x4 array;
     array.size = arrSize = lem->x4a->size*2;
     array.count = lem->x4a->count;
-    array.tbl = (x4node*)calloc(arrSize, sizeof(x4node) + sizeof(x4node*));
+    array.tbl = (x4node*)checked_calloc(arrSize, sizeof(x4node) + sizeof(x4node*));
     if( array.tbl==0 ) return 0;  /* Fail due to malloc failure */
     array.ht = (x4node**)&(array.tbl[arrSize]);
     for(i=0; i<arrSize; i++) array.ht[i] = 0;
-- 
2.43.0


From cfcee6afe944e87267cf056097d70b0b663f1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 22/39] fix: lemon: a failed read, write or seek makes the run
 fail

---
 lemon/lemon.c | 57 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b22cc23..377c8c8 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1592,6 +1592,15 @@ void memory_error(void){
   exit(1);
 }
 
+/* Make sure that everything printed so far on the standard output did get
+** out.  Return the number of errors, 0 or 1.
+*/
+static int check_stdout(void){
+  if( fflush(stdout)==0 && !ferror(stdout) ) return 0;
+  fprintf(stderr,"Error writing the standard output.\n");
+  return 1;
+}
+
 /* This routine is called with the argument to each -D command-line option.
 ** Add the macro defined to the azDefine array.
 */
@@ -1756,7 +1765,7 @@ int main(int argc, char **argv){
   OptInit(&lem, argv,options,stderr);
   if( version ){
      printf("Lemon version 1.0\n");
-     exit(0);
+     exit(check_stdout());
   }
   if( OptNArgs(&lem)!=1 ){
     fprintf(stderr,"Exactly one filename argument is required.\n");
@@ -1777,7 +1786,10 @@ int main(int argc, char **argv){
 
   /* Parse the input file */
   Parse(&lem);
-  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt);
+  if( lem.printPreprocessed || lem.errorcnt ){
+    lem.errorcnt += check_stdout();
+    exit(lem.errorcnt>255 ? 255 : lem.errorcnt);
+  }
   if( lem.nrule==0 ){
     fprintf(stderr,"Empty grammar.\n");
     exit(1);
@@ -1889,6 +1901,7 @@ int main(int argc, char **argv){
     stats_line("lookahead table entries", lem.nlookaheadtab);
     stats_line("total table size (bytes)", lem.tablesize);
   }
+  lem.errorcnt += check_stdout();
   int nexpect = lem.expect ? atoi(lem.expect) : 0;
 
   if( lem.nconflict != nexpect ){
@@ -3087,7 +3100,7 @@ void Parse(struct lemon *gp)
   struct pstate ps;
   FILE *fp;
   char *filebuf;
-  unsigned int filesize;
+  long filesize;
   int lineno;
   int c;
   char *cp, *nextcp;
@@ -3106,9 +3119,12 @@ void Parse(struct lemon *gp)
     gp->errorcnt++;
     return;
   }
-  fseek(fp,0,2);
-  filesize = ftell(fp);
-  rewind(fp);
+  if( fseek(fp,0,2)!=0 || (filesize = ftell(fp))<0 || fseek(fp,0,0)!=0 ){
+    ErrorMsg(ps.filename,0,"Can't find out the size of this file.");
+    gp->errorcnt++;
+    fclose(fp);
+    return;
+  }
   filebuf = (char *)malloc( filesize+1 );
   if( filesize>100000000 || filebuf==0 ){
     ErrorMsg(ps.filename,0,"Input file too large.");
@@ -3117,8 +3133,8 @@ void Parse(struct lemon *gp)
     fclose(fp);
     return;
   }
-  if( fread(filebuf,1,filesize,fp)!=filesize ){
-    ErrorMsg(ps.filename,0,"Can't read in all %d bytes of this file.",
+  if( fread(filebuf,1,filesize,fp)!=(size_t)filesize ){
+    ErrorMsg(ps.filename,0,"Can't read in all %ld bytes of this file.",
       filesize);
     free(filebuf);
     gp->errorcnt++;
@@ -3360,6 +3376,18 @@ PRIVATE FILE *file_open(
   return fp;
 }
 
+/* Close the output file most recently opened by file_open() and report
+** an error if any of it could not be written */
+PRIVATE void file_close(struct lemon *lemp, FILE *fp)
+{
+  int failed = ferror(fp);
+  if( fclose(fp)!=0 ) failed = 1;
+  if( failed ){
+    fprintf(stderr,"Error writing file \"%s\".\n",lemp->outname);
+    lemp->errorcnt++;
+  }
+}
+
 static int
 get_symbol_prec_chr(struct symbol *sym)
 {
@@ -3895,7 +3923,7 @@ void ReportOutput(struct lemon *lemp)
     }
     fprintf(fp,"\n");
   }
-  fclose(fp);
+  file_close(lemp,fp);
   return;
 }
 
@@ -4695,6 +4723,7 @@ void ReportSQL(
   int b, i, j, first_symbol;
 
   sql = file_open(lemp, ".sql", "wb");
+  if( sql==0 ) return;
 
   fprintf(sql,
     "BEGIN;\n"
@@ -4947,7 +4976,7 @@ void ReportSQL(
     "COMMIT;\n"
     "--select * from grammar_view;\n"
   );
-  fclose(sql);
+  file_close(lemp,sql);
 }
 
 /* Generate C source code for the parser */
@@ -5538,8 +5567,12 @@ void ReportTable(
   tplt_print(out,lemp,lemp->extracode,&lineno);
 
   acttab_free(pActtab);
+  if( ferror(in) ){
+    fprintf(stderr,"Error reading the parser driver template file.\n");
+    lemp->errorcnt++;
+  }
   fclose(in);
-  fclose(out);
+  file_close(lemp,out);
   return;
 }
 
@@ -5578,7 +5611,7 @@ void ReportHeader(struct lemon *lemp)
     }
     //fprintf(out,"#define %s%-30s %3d\n", prefix, "LEMON_LAST_TOKEN", i);
     fprintf(out," %s%s = %3d\n};\n", prefix, "LEMON_LAST_TOKEN", i);
-    fclose(out);
+    file_close(lemp,out);
   }
   return;
 }
-- 
2.43.0


From 3c412ac352e3b38e3bce4f1e010d5c0fb09879b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 23/39] fix: lemon: the order of equal actions no longer
 depends on addresses

---
 lemon/lemon.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 377c8c8..937351d 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -376,6 +376,7 @@ struct action {
   struct symbol *spOpt;    /* SHIFTREDUCE optimization to this symbol */
   struct action *next;     /* Next action for this state */
   struct action *collide;  /* Next action with the same hash */
+  int iSeq;                /* Order in which the actions were added */
 };
 
 /* Each state of the generated parser's finite state machine
@@ -487,6 +488,7 @@ struct lemon {
   struct s_x4 *x4a;
   int set_size;
   int preccounter;
+  int nActionAdded;        /* Number of calls to Action_add() */
 };
 int has_destructor(struct symbol *, struct lemon *);
 
@@ -588,7 +590,7 @@ static int actioncmp(
     rc = ap1->x.rp->index - ap2->x.rp->index;
   }
   if( rc==0 ){
-    rc = (int) (ap2 - ap1);
+    rc = ap2->iSeq - ap1->iSeq;
   }
   return rc;
 }
@@ -616,6 +618,7 @@ void Action_add(
   newaction->type = type;
   newaction->sp = sp;
   newaction->spOpt = 0;
+  newaction->iSeq = lemp->nActionAdded++;
   if( type==SHIFT ){
     newaction->x.stp = (struct state *)arg;
   }else{
-- 
2.43.0


From 72570b2f65249d77681d8b6fc4fba7a2004777fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 24/39] fix: lemon: an up-to-date header file is recognised and
 left alone

---
 lemon/lemon.c | 57 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 937351d..cf478b7 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5579,41 +5579,56 @@ void ReportTable(
   return;
 }
 
-/* Generate a header file for the parser */
-void ReportHeader(struct lemon *lemp)
-{
-  FILE *out, *in;
+/* Write text z to the header file, or, if "in" is not NULL, read it from the
+** header file that is there already.  Return false if that is different.
+*/
+static int header_text(FILE *in, FILE *out, const char *z){
+  if( in==0 ){
+    fputs(z,out);
+    return 1;
+  }
+  while( *z && fgetc(in)==(unsigned char)*z ) z++;
+  return *z==0;
+}
+
+/* Write the whole text of the header file or compare it with what is there */
+static int header_xfer(struct lemon *lemp, FILE *in, FILE *out){
   const char *prefix;
-  char line[LINESIZE];
-  char pattern[LINESIZE];
+  char zNum[40];
   int i;
 
   if( lemp->tokenprefix ) prefix = lemp->tokenprefix;
   else                    prefix = "";
+  if( !header_text(in,out,"enum ") || !header_text(in,out,prefix)
+   || !header_text(in,out,"LemonEnum {\n") ) return 0;
+  for(i=1; i<=lemp->nterminal; i++){
+    const char *name = i<lemp->nterminal ? lemp->symbols[i]->name
+                                         : "LEMON_LAST_TOKEN";
+    if( i<lemp->nterminal ) lemon_sprintf(zNum," = %3d,\n",i);
+    else                    lemon_sprintf(zNum," = %3d\n};\n",i);
+    if( !header_text(in,out," ") || !header_text(in,out,prefix)
+     || !header_text(in,out,name) || !header_text(in,out,zNum) ) return 0;
+  }
+  return in==0 || (fgetc(in)==EOF && !ferror(in));
+}
+
+/* Generate a header file for the parser */
+void ReportHeader(struct lemon *lemp)
+{
+  FILE *out, *in;
+
   in = file_open(lemp,".h","rb");
   if( in ){
-    int nextChar;
-    for(i=1; i<lemp->nterminal && fgets(line,LINESIZE,in); i++){
-      lemon_sprintf(pattern,"#define %s%-30s %3d\n",
-                    prefix,lemp->symbols[i]->name,i);
-      if( strcmp(line,pattern) ) break;
-    }
-    nextChar = fgetc(in);
+    int same = header_xfer(lemp,in,0);
     fclose(in);
-    if( i==lemp->nterminal && nextChar==EOF ){
+    if( same ){
       /* No change in the file.  Don't rewrite it. */
       return;
     }
   }
   out = file_open(lemp,".h","wb");
   if( out ){
-    fprintf(out,"enum %sLemonEnum {\n",prefix);
-    for(i=1; i<lemp->nterminal; i++){
-      //fprintf(out,"#define %s%-30s %3d\n",prefix,lemp->symbols[i]->name,i);
-      fprintf(out," %s%s = %3d,\n",prefix,lemp->symbols[i]->name,i);
-    }
-    //fprintf(out,"#define %s%-30s %3d\n", prefix, "LEMON_LAST_TOKEN", i);
-    fprintf(out," %s%s = %3d\n};\n", prefix, "LEMON_LAST_TOKEN", i);
+    header_xfer(lemp,0,out);
     file_close(lemp,out);
   }
   return;
-- 
2.43.0


From a61345dd95871cee4d60a6f58f410e410015cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:26 +0000
Subject: [PATCH 25/39] fix: lemon: a comment or string cut off by the end of
 the file was read past its end

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index cf478b7..673a914 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3221,6 +3221,7 @@ void Parse(struct lemon *gp)
             else              prevc = c;
           }
         }
+        if( c==0 ) break;   /* The file ends within the comment or string */
       }
       if( c==0 ){
         ErrorMsg(ps.filename,ps.tokenlineno,
-- 
2.43.0


From d920a439946aa8b5d236c879627b5cc989b2f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:26 +0000
Subject: [PATCH 26/39] fix: lemon: code that ends with a label was read past
 its end

---
 lemon/lemon.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 673a914..d9692af 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4363,12 +4363,13 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     }
     if( ISALPHA(*cp) && (cp==rp->code || (!ISALNUM(cp[-1]) && cp[-1]!='_')) ){
       char saved;
+      int replaced = 0;
       for(xp= &cp[1]; ISALNUM(*xp) || *xp=='_'; xp++);
       saved = *xp;
       *xp = 0;
       if( rp->lhsalias && strcmp(cp,rp->lhsalias)==0 ){
         append_str(&sa_buf, zLhs,0,0,0);
-        cp = xp;
+        replaced = 1;
         lhsused = 1;
       }else{
         for(i=0; i<rp->nrhs; i++){
@@ -4392,13 +4393,18 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
               }
               append_str(&sa_buf, "yymsp[%d].minor.yy%d",0,i-rp->nrhs+1, dtnum);
             }
-            cp = xp;
+            replaced = 1;
             used[i] = 1;
             break;
           }
         }
       }
       *xp = saved;
+      if( replaced ){
+        /* Go on behind the label, which may be the end of the code */
+        cp = xp-1;
+        continue;
+      }
     }
     append_str(&sa_buf, cp, 1, 0, 0);
   } /* End loop */
-- 
2.43.0


From 064f3572430119254d01afdf6b67526346ffb1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:26 +0000
Subject: [PATCH 27/39] fix: lemon: long labels and file names overflowed fixed
 buffers

---
 lemon/lemon.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d9692af..b0b2f94 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4054,7 +4054,7 @@ PRIVATE void tplt_skip_header(FILE *in, int *lineno)
 ** a pointer to the opened file. */
 PRIVATE FILE *tplt_open(struct lemon *lemp)
 {
-  char buf[1000];
+  char *buf;
   FILE *in;
   char *tpltname;
   char *toFree = 0;
@@ -4078,6 +4078,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     return in;
   }
 
+  buf = (char *)checked_malloc( lemonStrlen(lemp->filename) + 4 );
   cp = strrchr(lemp->filename,'.');
   if( cp ){
     lemon_sprintf(buf,"%.*s.lt",(int)(cp-lemp->filename),lemp->filename);
@@ -4095,6 +4096,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     fprintf(stderr,"Can't find the parser driver template file \"%s\".\n",
     lemp->templatename);
     lemp->errorcnt++;
+    free(buf);
     return 0;
   }
   in = fopen(tpltname,"rb");
@@ -4103,6 +4105,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     lemp->errorcnt++;
   }
   free(toFree);
+  free(buf);
   return in;
 }
 
@@ -4264,7 +4267,7 @@ PRIVATE char *append_str(StrAppendBuffer *sa_buf, const char *zText, int n, int
   return sa_buf->z;
 }
 
-PRIVATE char *free_StrAppendBuffer(StrAppendBuffer *sa_buf){
+PRIVATE void free_StrAppendBuffer(StrAppendBuffer *sa_buf){
     free(sa_buf->z);
 }
 
@@ -4285,7 +4288,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
   char lhsdirect;        /* True if LHS writes directly into stack */
   char used[MAXRHS];     /* True for each RHS element which is used */
   char zLhs[50];         /* Convert the LHS symbol into this string */
-  char zOvwrt[900];      /* Comment that to allow LHS to overwrite RHS */
+  char *zOvwrt = 0;      /* Comment that to allow LHS to overwrite RHS */
   StrAppendBuffer sa_buf;
   memset(&sa_buf, 0, sizeof(sa_buf));
 
@@ -4333,6 +4336,8 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       lemp->errorcnt++;
     }
   }else{
+    zOvwrt = (char *)checked_malloc( lemonStrlen(rp->lhsalias)
+                                     + lemonStrlen(rp->rhsalias[0]) + 20 );
     lemon_sprintf(zOvwrt, "/*%s-overwrites-%s*/",
                   rp->lhsalias, rp->rhsalias[0]);
     zSkip = strstr(rp->code, zOvwrt);
@@ -4473,6 +4478,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     rp->noCode = 0;
   }
   free_StrAppendBuffer(&sa_buf);
+  free(zOvwrt);
 
   return rc;
 }
-- 
2.43.0


From c3901500380b0045bb037ab71fd0467587aff1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:26 +0000
Subject: [PATCH 28/39] fix: lemon: an empty code block made tplt_print() read
 before its start

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b0b2f94..30ece06 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4124,13 +4124,14 @@ PRIVATE void tplt_linedir(FILE *out, int lineno, char *filename)
 /* Print a string to the file and keep the linenumber up to date */
 PRIVATE void tplt_print(FILE *out, struct lemon *lemp, char *str, int *lineno)
 {
+  const char *first = str;
   if( str==0 ) return;
   while( *str ){
     putc(*str,out);
     if( *str=='\n' ) (*lineno)++;
     str++;
   }
-  if( str[-1]!='\n' ){
+  if( str==first || str[-1]!='\n' ){
     putc('\n',out);
     (*lineno)++;
   }
-- 
2.43.0


From 6e006bb7046a08e904019701413e3687d8e3ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:23 +0000
Subject: [PATCH 29/39] fix: lemon: a start symbol that begins a right-hand
 side stopped lemon with an assertion

---
 lemon/lemon.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 30ece06..513a566 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1359,6 +1359,10 @@ static int resolve_conflict(
     }else if( spx->prec<spy->prec ){
       apx->type = RD_RESOLVED;
     }
+  }else if( apx->type==SHIFT && apy->type==ACCEPT ){
+    /* The start symbol begins the right-hand side of a rule.  That error
+    ** has been reported by FindStates() already. */
+    apx->type = SH_RESOLVED;
   }else if( apx->type==ERROR && apy->type==REDUCE ){
     /* %nonassoc already made the token an error in this state */
     apy->type = RD_RESOLVED;
-- 
2.43.0


From 6e21f6b182e7092ec35e9fc76dbba2d88bf915ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:05 +0000
Subject: [PATCH 30/39] fix: byacc: arguments used before their declaration, or
 untyped, were taken from unallocated memory

---
 byacc/defs.h   |  1 +
 byacc/reader.c | 47 +++++++++++++++++++++++++++--------------------
 byacc/symtab.c |  1 +
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index b24cab3..f1b326e 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -242,6 +242,7 @@ struct bucket
 #if defined(YYBTYACC)
     char **argnames;
     char **argtags;
+    int maxargs;		/* size of argnames and argtags */
     int args;
     char *destructor;
 #endif
diff --git a/byacc/reader.c b/byacc/reader.c
index 6f4ca24..d7eb9b7 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -16,10 +16,6 @@
 #define L_BRAC  '['
 #define R_BRAC  ']'
 
-/* the maximum number of arguments (inherited attributes) to a non-terminal */
-/* this is a hard limit, but seems more than adequate */
-#define MAXARGS	20
-
 /* limit the size of optional names for %union */
 #define NAME_LEN 32
 
@@ -1810,10 +1806,29 @@ declare_expect(byacc_t* S, int assoc)
 }
 
 #if defined(YYBTYACC)
+/*
+ * Make room for the names and types of at least this many arguments.
+ */
+static void
+expand_args(byacc_t* S, bucket *bp, int args)
+{
+    if (args <= bp->maxargs)
+	return;
+    bp->argnames = TREALLOC(char *, bp->argnames, args);
+    NO_SPACE(bp->argnames);
+    bp->argtags = TREALLOC(char *, bp->argtags, args);
+    NO_SPACE(bp->argtags);
+    while (bp->maxargs < args)
+    {
+	bp->argnames[bp->maxargs] = NULL;
+	bp->argtags[bp->maxargs] = NULL;
+	++bp->maxargs;
+    }
+}
+
 static void
 declare_argtypes(byacc_t* S, bucket *bp)
 {
-    char *tags[MAXARGS];
     int args = 0;
 
     if (bp->args >= 0)
@@ -1826,7 +1841,9 @@ declare_argtypes(byacc_t* S, bucket *bp)
 	    unexpected_EOF(S);
 	if (c != '<')
 	    syntax_error(S, S->lineno, S->line, S->cptr);
-	tags[args++] = get_tag(S);
+	expand_args(S, bp, args + 1);
+	bp->argtags[args] = get_tag(S);
+	bp->argnames[args++] = NULL;
 	c = nextc(S);
 	if (c == R_PAREN)
 	    break;
@@ -1835,15 +1852,6 @@ declare_argtypes(byacc_t* S, bucket *bp)
     }
     S->cptr++;			/* skip close paren */
     bp->args = args;
-    bp->argnames = TMALLOC(char *, args);
-    NO_SPACE(bp->argnames);
-    bp->argtags = CALLOC(sizeof(char *), args + 1);
-    NO_SPACE(bp->argtags);
-    while (--args >= 0)
-    {
-	bp->argtags[args] = tags[args];
-	bp->argnames[args] = NULL;
-    }
 }
 #endif
 
@@ -2286,13 +2294,10 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
     {
 	if ((a->args = argslen) == 0)
 	    return;
-	a->argnames = TMALLOC(char *, argslen);
-	NO_SPACE(a->argnames);
-	a->argtags = TMALLOC(char *, argslen);
-	NO_SPACE(a->argtags);
     }
     if (!args)
 	return;
+    expand_args(S, a, argslen);
     for (i = 0; i < argslen; i++)
     {
 	while (isspace(UCH(*p)))
@@ -2754,7 +2759,7 @@ insert_arg_rule(byacc_t* S, char *arg, char *tag)
 	fprintf(f, "%s;", code);
 	end_case(f);
 	insert_empty_rule(S);
-	S->plhs[rule]->tag = cache_tag(S, tag, strlen(tag));
+	S->plhs[rule]->tag = tag ? cache_tag(S, tag, strlen(tag)) : NULL;
 	S->plhs[rule]->class = ARGUMENT;
     }
     else
@@ -2832,11 +2837,13 @@ add_symbol(byacc_t* S)
 #if defined(YYBTYACC)
     if (bp->args < 0)
 	bp->args = argslen;
+    expand_args(S, bp, argslen);
     if (argslen == 0 && bp->args > 0 && S->pitem[S->nitems - 1] == NULL)
     {
 	int i;
 	if (S->plhs[S->nrules]->args != bp->args)
 	    wrong_number_args_warning(S, "default ", bp->name);
+	expand_args(S, S->plhs[S->nrules], bp->args);
 	for (i = bp->args - 1; i >= 0; i--)
 	    if (S->plhs[S->nrules]->argtags[i] != bp->argtags[i])
 		wrong_type_for_arg_warning(S, i + 1, bp->name);
diff --git a/byacc/symtab.c b/byacc/symtab.c
index f64623a..0c58973 100644
--- a/byacc/symtab.c
+++ b/byacc/symtab.c
@@ -46,6 +46,7 @@ make_bucket(byacc_t* S, const char *name)
     bp->assoc = TOKEN;
 #if defined(YYBTYACC)
     bp->args = -1;
+    bp->maxargs = 0;
     bp->argnames = 0;
     bp->argtags = 0;
     bp->destructor = 0;
-- 
2.43.0


From 0787f6a704f8604545421e7639d7a97fe54d527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:40 +0000
Subject: [PATCH 31/39] fix: byacc: names of escaped characters were looked up
 outside of their table

---
 byacc/reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index d7eb9b7..965a9bd 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4253,7 +4253,7 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
     int ch;
     if(tkname[0] == '\'') {
         if(tkname[2] == '\'') {
-            ch = tkname[1];
+            ch = UCH(tkname[1]);
             if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
             else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
         }            
@@ -4267,7 +4267,7 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
                 case 'v': ch = '\v'; break;
                 case '\\': ch = '\\'; break;
                 default:
-                    ch = -1;
+                    ch = UCH(ch);
             }
             if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
             else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-- 
2.43.0


From cb9b4a97600049e2e24e2c9a7f551a08714d933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:22 +0000
Subject: [PATCH 32/39] fix: byacc: destructors were scanned past their end

---
 byacc/reader.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 965a9bd..ab166d9 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -3495,6 +3495,8 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
 	while (IS_NAME2(c));
 	goto loop;
     }
+    if (c == '\0')
+	return msdone(S, new_code);
     ++codeptr;
     mputc(new_code, c);
     switch (c)
@@ -3511,18 +3513,19 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
     case '\'':
     case '"':
 	quote = c;
-	for (;;)
+	while ((c = *codeptr) != '\0')
 	{
-	    c = *codeptr++;
+	    ++codeptr;
 	    mputc(new_code, c);
 	    if (c == quote)
 		goto loop;
-	    if (c == '\\')
+	    if (c == '\\' && (c = *codeptr) != '\0')
 	    {
-		c = *codeptr++;
+		++codeptr;
 		mputc(new_code, c);
 	    }
 	}
+	goto loop;
 
     case '/':
 	c = *codeptr;
@@ -3530,9 +3533,9 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
 	{
 	    mputc(new_code, c);
 	    ++codeptr;
-	    for (;;)
+	    while ((c = *codeptr) != '\0')
 	    {
-		c = *codeptr++;
+		++codeptr;
 		mputc(new_code, c);
 		if (c == '*' && *codeptr == '/')
 		{
@@ -3542,6 +3545,14 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
 		}
 	    }
 	}
+	else if (c == '/')
+	{
+	    while ((c = *codeptr) != '\0' && c != '\n')
+	    {
+		++codeptr;
+		mputc(new_code, c);
+	    }
+	}
 	goto loop;
 
     default:
-- 
2.43.0


From fce000c9628c91f4e786adbc057a404e8398594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:22 +0000
Subject: [PATCH 33/39] fix: byacc: a comment over several lines let parameters
 overflow their buffer

---
 byacc/reader.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index ab166d9..fe320b3 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1247,24 +1247,19 @@ copy_param(byacc_t* S, int k)
 	    }
 	    break;
 	}
-	if (buf == 0)
+	/* keep room for one more character, a NUL and what follows here */
+	if ((size_t)(i + 4) > buf_size)
 	{
-	    buf_size = (size_t)S->linesize;
-	    buf = TMALLOC(char, buf_size);
+	    buf_size += (size_t)S->linesize;
+	    buf = TREALLOC(char, buf, buf_size);
 	    NO_SPACE(buf);
 	}
-	else if (c == '\n')
+	if (c == '\n')
 	{
-	    char *tmp;
-
 	    get_line(S);
 	    if (S->line == NULL)
 		unexpected_EOF(S);
 	    --S->cptr;
-	    buf_size += (size_t)S->linesize;
-	    tmp = TREALLOC(char, buf, buf_size);
-	    NO_SPACE(tmp);
-	    buf = tmp;
 	}
 	if (curly)
 	{
-- 
2.43.0


From 39ddf37fd83e43994eb1652b80b9ec0ef80b2e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:41 +0000
Subject: [PATCH 34/39] fix: byacc: looking for another block read past the end
 of the file and lost count of lines

---
 byacc/defs.h   |  2 ++
 byacc/reader.c | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index f1b326e..a7be6bd 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -339,6 +339,8 @@ typedef struct
     char *line_data;	/* saved input-line */
     size_t line_used;	/* position within saved input-line */
     size_t line_size;	/* length of saved input-line */
+    int line_lineno;	/* number of the saved input-line */
+    int line_eof;	/* saw_eof at the saved input-line */
     fpos_t line_fpos;	/* pointer before reading past saved input-line */
 }
 SAVE_LINE;
diff --git a/byacc/reader.c b/byacc/reader.c
index fe320b3..b844fd1 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -261,6 +261,8 @@ restore_line(byacc_t* S)
 	S->line = S->save_area.line_data;
 	S->cptr = S->save_area.line_used + S->line;
 	S->linesize = S->save_area.line_size;
+	S->lineno = S->save_area.line_lineno;
+	S->saw_eof = S->save_area.line_eof;
 	if (fsetpos(S->input_file, &S->save_area.line_fpos) != 0)
 	    on_error(S);
 	memset(&S->save_area, 0, sizeof(S->save_area));
@@ -280,10 +282,11 @@ get_line(byacc_t* S)
     if (S->must_save > 0)
     {
 	S->save_area.line_data = TMALLOC(char, S->linesize);
-	S->save_area.line_used = (size_t)(S->cptr - S->line);
 	S->save_area.line_size = S->linesize;
 	NO_SPACE(S->save_area.line_data);
 	memcpy(S->save_area.line_data, S->line, S->linesize);
+	S->save_area.line_lineno = S->lineno;
+	S->save_area.line_eof = S->saw_eof;
 	if (fgetpos(f, &S->save_area.line_fpos) != 0)
 	    on_error(S);
 	S->must_save = -S->must_save;
@@ -1115,8 +1118,12 @@ more_curly(byacc_t* S)
 	    finish = 1;
 	    result = 1;
 	    break;
+	case EOF:
+	    finish = 1;
+	    break;
 	}
-	++S->cptr;
+	if (S->line != NULL)
+	    ++S->cptr;
     }
     while (!finish);
     restore_line(S);
-- 
2.43.0


From ab3479d368aba73886e8822649ea3b7084e818f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 35/39] fix: lemon: a token class without tokens is an error,
 not a crash

---
 lemon/lemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 513a566..b0c698d 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2910,6 +2910,11 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
       break;
     case WAITING_FOR_CLASS_TOKEN:
       if( x[0]=='.' ){
+        if( psp->tkclass->nsubsym==0 ){
+          ErrorMsg(psp->filename, psp->tokenlineno,
+            "%%token_class \"%s\" has no tokens", psp->tkclass->name);
+          psp->errorcnt++;
+        }
         psp->state = WAITING_FOR_DECL_OR_RULE;
       }else if( ISUPPER(x[0]) || ((x[0]=='|' || x[0]=='/') && ISUPPER(x[1])) ){
         struct symbol *msp = psp->tkclass;
-- 
2.43.0


From 40e8548de71c4bd07fe92d5631378539a26be6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 36/39] fix: lemon: -y left out combinations of token classes
 and read past the shorter one

---
 lemon/lemon.c | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b0c698d..e5fc01e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3623,7 +3623,7 @@ void Reprint(struct lemon *lemp)
 
 /* Print the text of a rule
 */
-void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
+void rule_print_yacc0(FILE *out, struct rule *rp, const int *mt_idx){
   int i, j;
   fprintf(out, "%s", rp->lhs->name);
   /*    if( rp->lhsalias ) fprintf(out,"(%s)",rp->lhsalias); */
@@ -3636,8 +3636,8 @@ void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
       struct symbol *sp = rp->rhs[i];
       if( sp->type==MULTITERMINAL ){
         //fprintf(out," m_t_%d", sp->id);
-        fprintf(out," %s", sp->subsym[mt_idx]->name);
-        print_symbol_prec_commented(out, sp->subsym[mt_idx]);
+        fprintf(out," %s", sp->subsym[mt_idx[i]]->name);
+        print_symbol_prec_commented(out, sp->subsym[mt_idx[i]]);
       }else{
         fprintf(out," %s", sp->name);
         print_symbol_prec_commented(out, sp);
@@ -3648,28 +3648,23 @@ void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
 }
 
 void rule_print_yacc(FILE *out, struct rule *rp){
-    int i, j;
-    for(i=0; i<rp->nrhs; i++){
-      struct symbol *sp = rp->rhs[i];
-      if( sp->type==MULTITERMINAL ){
-        for(j=0; j<sp->nsubsym; j++){
-          rule_print_yacc0(out, rp, j);
-          if( rp->precsym ) {
-              fprintf(out, " %%prec %s",rp->precsym->name);
-              print_symbol_prec_commented(out, rp->precsym);
-          }
-          fprintf(out, " ;\n");
-        }
-        return;
-      }
-      /* if( rp->rhsalias[i] ) fprintf(out,"(%s)",rp->rhsalias[i]); */
-    }
-    rule_print_yacc0(out, rp, -1);
+  int mt_idx[MAXRHS];    /* Which token of each token class comes next */
+  int i;
+  for(i=0; i<rp->nrhs; i++) mt_idx[i] = 0;
+  do{
+    rule_print_yacc0(out, rp, mt_idx);
     if( rp->precsym ) {
         fprintf(out, " %%prec %s",rp->precsym->name);
         print_symbol_prec_commented(out, rp->precsym);
     }
     fprintf(out, " ;\n");
+    /* Go on with the next combination of tokens, if there is any */
+    for(i=rp->nrhs-1; i>=0; i--){
+      if( rp->rhs[i]->type==MULTITERMINAL
+       && ++mt_idx[i]<rp->rhs[i]->nsubsym ) break;
+      mt_idx[i] = 0;
+    }
+  }while( i>=0 );
 }
 
 /* Duplicate the input file without comments and without actions
-- 
2.43.0


From a70434c5c520b0aae19069ec04af52e674a356fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:58 +0000
Subject: [PATCH 37/39] fix: lemon: searching the template without memory used
 an uninitialised path

---
 lemon/lemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e5fc01e..87388f7 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3959,8 +3959,8 @@ PRIVATE char *pathsearch(char *argv0, char *name, int modemask)
   }else{
     pathlist = getenv("PATH");
     if( pathlist==0 ) pathlist = ".:/bin:/usr/bin";
-    pathbuf = (char *) malloc( lemonStrlen(pathlist) + 1 );
-    path = (char *)malloc( lemonStrlen(pathlist)+lemonStrlen(name)+2 );
+    pathbuf = (char *) checked_malloc( lemonStrlen(pathlist) + 1 );
+    path = (char *)checked_malloc( lemonStrlen(pathlist)+lemonStrlen(name)+2 );
     if( (pathbuf != 0) && (path!=0) ){
       pathbufptr = pathbuf;
       lemon_strcpy(pathbuf, pathlist);
-- 
2.43.0


From 8052151ceb60e60fde9b4f4debb3948ab6851187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:41 +0000
Subject: [PATCH 38/39] fix: byacc: a grammar with named inherited attributes
 and no tags did not get a type for its values

---
 byacc/output.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/byacc/output.c b/byacc/output.c
index b0fc471..209067d 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -238,7 +238,8 @@ end_table(byacc_t* S)
 static void
 output_stype(byacc_t* S, FILE * fp)
 {
-    if (!S->unionized && S->ntags == 0)
+    /* names of inherited attributes are kept in the table of tags, too */
+    if (!S->unionized && !S->havetags)
     {
 	putc_code(S, fp, '\n');
 	putl_code(S, fp, "#if "
-- 
2.43.0


From 905f1799e9110dd3f63deee9ec3428d613ac45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:33 +0000
Subject: [PATCH 39/39] fix: byacc: a quotation mark in a string token made the
 tables of names uncompilable

---
 byacc/output.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/byacc/output.c b/byacc/output.c
index 209067d..c32100f 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -1416,7 +1416,7 @@ output_debug(byacc_t* S)
 		    if (*s == '\\')
 		    {
 			k += 2;
-			if (*++s == '\\')
+			if (*++s == '\\' || *s == '"')
 			    ++k;
 		    }
 		}
@@ -1435,6 +1435,8 @@ output_debug(byacc_t* S)
 			fprintf(S->output_file, "\\\\");
 			if (*++s == '\\')
 			    fprintf(S->output_file, "\\\\");
+			else if (*s == '"')
+			    fprintf(S->output_file, "\\\"");
 			else
 			    putc(*s, S->output_file);
 		    }
@@ -1542,6 +1544,8 @@ output_debug(byacc_t* S)
 		    {
 			if (s[1] == '\\')
 			    fprintf(S->output_file, "\\\\\\\\");
+			else if (s[1] == '"')
+			    fprintf(S->output_file, "\\\\\\\"");
 			else
 			    fprintf(S->output_file, "\\\\%c", s[1]);
 			++s;
-- 
2.43.0

