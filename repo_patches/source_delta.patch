From 265ce421c5162a7f8f388858f649688950701107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 01/51] fix: keep actions and policy graph sources for
 single-observation POMDPs (enum, incprune crashed)

---
 src/cross-sum.c   | 26 ++++++++++++++++++++++++++
 src/cross-sum.h   |  4 ++++
 src/enumeration.c |  2 +-
 src/inc-prune.c   |  2 +-
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/cross-sum.c b/src/cross-sum.c
index 6543176..3976ec9 100644
--- a/src/cross-sum.c
+++ b/src/cross-sum.c
@@ -179,5 +179,31 @@ crossSum( AlphaList A, AlphaList B, int save_obs_sources )
   return ( V );
 }  /* crossSum */
 /**********************************************************************/
+AlphaList 
+singleObsCrossSum( AlphaList A ) 
+{
+  /*
+    With a single observation there is nothing to sum over: the
+    resulting vectors are just those of the only projection set.  This
+    does the bookkeeping the crossSum() routine would have done, giving
+    each vector the action of the set and setting its only obs_source
+    pointer to the projection it came from.
+  */
+  AlphaList V, temp;
+
+  Assert ( A != NULL, "NULL set specified." );
+
+  V = newAlphaList();
+  V->action = A->action;
+
+  for ( A = A->head; A != NULL; A = A->next ) {
 
+    temp = newAlphaNodeObsSource( duplicateAlpha( A->alpha ), V->action );
+    temp->obs_source[A->obs] = A;
+    appendNodeToAlphaList( V, temp );
 
+  }  /* for A */
+
+  return ( V );
+}  /* singleObsCrossSum */
+/**********************************************************************/
diff --git a/src/cross-sum.h b/src/cross-sum.h
index 87b6730..6db0764 100644
--- a/src/cross-sum.h
+++ b/src/cross-sum.h
@@ -37,5 +37,9 @@
 extern AlphaList crossSum( AlphaList A, 
                            AlphaList B, 
                            int save_obs_sources );
+
+/* The counterpart of crossSum() for when there is only one
+   observation, and thus only one projection set. */
+extern AlphaList singleObsCrossSum( AlphaList A );
  
 #endif
diff --git a/src/enumeration.c b/src/enumeration.c
index 82d24f7..ce93503 100644
--- a/src/enumeration.c
+++ b/src/enumeration.c
@@ -61,7 +61,7 @@ enumerationByQ( AlphaList *projection )
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) {
     gNumVectorsEnum += projection[0]->length;
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleObsCrossSum( projection[0] ));
   }
 
    /* We do one less cross-sum than the number of observations. */
diff --git a/src/inc-prune.c b/src/inc-prune.c
index 5d61492..0c5b023 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -404,7 +404,7 @@ improveIncPrune( AlphaList *projection,
      corresponds to a completely unobservable problem, but for this
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) 
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleObsCrossSum( projection[0] ));
 
     /* We do one less cross-sum than the number of observations. */
    for( z = 1; z < gNumObservations; z++) {
-- 
2.43.0


From 149f30f0429d1d0b72d9ccc3254aef0f64f4b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 02/51] fix: terminate when the -time_limit expires instead of
 only reporting it

---
 src/signal-handler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signal-handler.c b/src/signal-handler.c
index 652e612..38a1c10 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -174,6 +174,8 @@ signalHandlerSIGVTALRM( int sig )
           "SIGVTALRM received, but no parameter context was set." );
 
   reportSIGVTALRM( gInterruptParamContext );
+
+  exit ( 0 );
    
 }  /* signalHandlerSIGVTALRM */
 /**********************************************************************/
-- 
2.43.0


From bc888292e832521c5822f967d462e12f7a848525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 03/51] fix: report unrecognized options instead of silently
 ignoring them

---
 src/program-options.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 113ad46..24790da 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -376,9 +376,10 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < cmd_line->num_flags; i++ )
     { 
-	 if ( ! opts->flag_seen )
+	 if ( ! opts->flag_seen[i] )
 	   {
-		sprintf( err_msg, "Unreckognized command line flag '%s'.",
+		snprintf( err_msg, sizeof( err_msg ),
+			    "Unreckognized command line flag '%s'.",
 			    cmd_line->flags[i] );
 		PO_handleError( opts, err_msg );
 	   }
@@ -388,10 +389,11 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < assoc->cur_size; i++ )
     { 
-	 if ( ! opts->option_seen )
+	 if ( ! opts->option_seen[i] )
 	   {
-		sprintf( err_msg, "Unreckognized command line option '%s'.",
-			    cmd_line->flags[i] );
+		snprintf( err_msg, sizeof( err_msg ),
+			    "Unreckognized command line option '%s'.",
+			    assoc->keys[i] );
 		PO_handleError( opts, err_msg );
 	   }
     } /* loop over flags */
-- 
2.43.0


From 92e21efaf58292f226929df804d672b0b9d5d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 04/51] fix: reject option values that are not numbers where a
 number is required

---
 src/program-options.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 24790da..25084a9 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -576,6 +576,7 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
   int i;
   int str_result;
   char found_str[MAX_OPT_STRING_LEN];
+  char *end_ptr;
 
   if (( opts == NULL )
 	 || ( opt_name == NULL )
@@ -587,7 +588,11 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = atoi( found_str );
+  *ret_value = strtol( found_str, &end_ptr, 10 );
+
+  /* The whole string has to be a number. */
+  if (( end_ptr == found_str ) || ( *end_ptr != '\0' ))
+    return PO_OPT_PRESENT_ERROR;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
@@ -619,6 +624,7 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
   int i;
   int str_result;
   char found_str[MAX_OPT_STRING_LEN];
+  char *end_ptr;
 
   if (( opts == NULL )
 	 || ( opt_name == NULL )
@@ -630,7 +636,11 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = strtod( found_str, NULL );
+  *ret_value = strtod( found_str, &end_ptr );
+
+  /* The whole string has to be a number. */
+  if (( end_ptr == found_str ) || ( *end_ptr != '\0' ))
+    return PO_OPT_PRESENT_ERROR;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
-- 
2.43.0


From 2b84243e0f44f35d6a7e79c2c44bf9277f09ed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 05/51] fix: config file: keep a last line without newline, and
 check line lengths

---
 src/config-file.c | 21 ++++++++++++++++++---
 src/config-file.h |  2 +-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/config-file.c b/src/config-file.c
index 50002bb..35a2009 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -90,7 +90,7 @@ CF_fscanf( FILE* file )
   int file_done = 0;
   int line_done;
   int line_no = 0;
-  char ch;
+  int ch;
 
   int char_idx;
 
@@ -108,11 +108,12 @@ CF_fscanf( FILE* file )
 	 while( ! line_done )
 	   {
 
+		/* The end of the file also ends its last line, which need
+		   not be terminated with a newline. */
 		if ( ( ch = fgetc( file )) == EOF )
 		  {
-		    line_done = 1;
 		    file_done = 1;
-		    break;
+		    ch = '\n';
 		  }
 
 		switch( ch )
@@ -233,11 +234,25 @@ CF_fscanf( FILE* file )
 		    switch ( state )
 			 {
 			 case PARSE_IN_ATTRIBUTE:
+			   /* Leave room for the string terminator. */
+			   if ( char_idx >= MAX_CFG_FILE_STRING_LEN - 1 )
+				{
+				  cfg->error_count += 1;
+				  state = PARSE_IN_ERROR;
+				  break;
+				}
 			   attr[char_idx] = ch;
 			   char_idx += 1;
 			   break;
 
 			 case PARSE_IN_VALUE:
+			   /* Leave room for the string terminator. */
+			   if ( char_idx >= MAX_CFG_FILE_STRING_LEN - 1 )
+				{
+				  cfg->error_count += 1;
+				  state = PARSE_IN_ERROR;
+				  break;
+				}
 			   value[char_idx] = ch;
 			   char_idx += 1;
 			   break;
diff --git a/src/config-file.h b/src/config-file.h
index 567d246..54fd68d 100644
--- a/src/config-file.h
+++ b/src/config-file.h
@@ -26,7 +26,7 @@
 /* Private Data */
 /*******************************************************/
 
-#define MAX_CFG_FILE_STRING_LEN     100
+#define MAX_CFG_FILE_STRING_LEN     1024
 #define MAX_CFG_FILE_PARAMS         256
 
 /* Parse sates for parsing configuration file. See CF_fscanf(). */
-- 
2.43.0


From 4e878ad612131ac228dbd22758e45472cde7161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 06/51] fix: long file names and option values overflowed
 fixed-size buffers

---
 src/command-line.c | 8 ++++----
 src/global.h       | 5 +++--
 src/params.h       | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/command-line.c b/src/command-line.c
index 6fd574f..b7fa27f 100644
--- a/src/command-line.c
+++ b/src/command-line.c
@@ -177,7 +177,7 @@ CL_addFlag( CommandLine cmd_line, char* dashed_flag )
 
   if ( strlen( dashed_flag ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line flag '%s' is too long. %s",
 			dashed_flag, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -218,7 +218,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( dashed_opt ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line flag '%s' is too long. %s",
 			dashed_opt, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -226,7 +226,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line value '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line value '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -275,7 +275,7 @@ CL_addArgProper( CommandLine cmd_line, char* value )
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line argument '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line argument '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
diff --git a/src/global.h b/src/global.h
index 064e873..c3d1149 100644
--- a/src/global.h
+++ b/src/global.h
@@ -63,8 +63,9 @@
 #define MAX_MSG_LENGTH               1096
 
 /* For places where we statically allocate filename character arrays,
-   use this for the length. */
-#define MAX_FILENAME_LENGTH          100
+   use this for the length.  Has to hold the longest string option
+   (MAX_OPT_STRING_LEN) plus any suffix appended to it. */
+#define MAX_FILENAME_LENGTH          1200
 
 /*******************************************************************/
 /**************              MACROS                 ****************/
diff --git a/src/params.h b/src/params.h
index 11a3d2e..68c089a 100644
--- a/src/params.h
+++ b/src/params.h
@@ -177,10 +177,10 @@ struct PomdpSolveParamStruct {
   int use_witness_points;
 
   /* The filename to use as a backup file for each iteration's answer. */
-  char backup_file[1024];
+  char backup_file[MAX_FILENAME_LENGTH];
 
   /* The filename to use for previous epoch solution. */
-  char penultimate_filename[1024];
+  char penultimate_filename[MAX_FILENAME_LENGTH];
 
   /* For the algorithms which construct the value function one action
      at a time, the final step is to merge and purge all the
-- 
2.43.0


From b18545495fb0aff57806d23d16439b4b1abf2b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 07/51] fix: -dom_check defaults to true as documented

---
 src/pomdp-solve-options.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index c24cf68..7da41f8 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -552,7 +552,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_DOM_CHECK_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->domination_check = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->domination_check = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'domination_check' has invalid value." );
 
-- 
2.43.0


From 0f617c046bb70ebc2481c18a0cd8e621aa64bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 08/51] fix: a seed given with -rand_seed was discarded on the
 first random number

---
 src/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random.c b/src/random.c
index 1aeeb6a..bc957eb 100644
--- a/src/random.c
+++ b/src/random.c
@@ -121,6 +121,7 @@ setRandomSeedFromString ( char *str )
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
 
+  seeded = 1;
 }  /* setRandomSeedFromString  */
 /**********************************************************************/
 void 
-- 
2.43.0


From c2c3bd0269d657f68e1849fc4b90cd785572a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 09/51] fix: zeros in an R: matrix did not override earlier
 rewards

---
 src/mdp/imm-reward.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mdp/imm-reward.c b/src/mdp/imm-reward.c
index 23a8264..de7f845 100644
--- a/src/mdp/imm-reward.c
+++ b/src/mdp/imm-reward.c
@@ -319,6 +319,13 @@ void irAddToDecisionTree(Imm_Reward_List node)
     break;
     
   case ir_matrix:
+    /* The sparse matrix leaves out the zeros, but those also override
+       any earlier specification. */
+    if ( gProblemType == POMDP_problem_type ) { /* pomdp */
+      dtAdd(node->action, node->cur_state, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
+    } else { /* mdp */
+      dtAdd(node->action, WILDCARD_SPEC, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
+    }
     m = node->rep.matrix;
     for (i=0; i < m->num_rows; i++) {
       for (j=0; j < m->row_length[i]; j++) {
-- 
2.43.0


From 728c477de1a04e12edfe0cdc8c27e21e029a9dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 10/51] fix: a model without any reward specification aborted

---
 src/mdp/decision-tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index fc0b221..237677f 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -358,6 +358,9 @@ double dtGet(int action, int cur_state, int next_state, int obs)
   vec[2] = next_state;
   vec[3] = obs;
 
+  /* Without any specification, everything is zero. */
+  if (NULL == gTree) return 0.0;
+
   return dtGetInternal(gTree, vec, 0);
 }
 
-- 
2.43.0


From 624bed7e7f220e29ff357ca0f8f1fbfcc4d19130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 11/51] fix: pg_eval rejected the solver's own policy graphs
 with impossible observations and printed an unset best node

---
 src/pg-eval.c | 9 +++++++--
 src/pg.c      | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index a8a0f69..741906c 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -247,6 +247,10 @@ PGE_setRowCoefs( PG pg, int state, int node, double *coef ) {
        overwriting them. */
     for( z = 0; z < gNumObservations; z++ ) {
 
+      /* No next node when the observation is impossible. */
+      if ( pg->next[node][z] < 0 )
+        continue;
+
       /* This converts from the 2D naming to the 1D naming
          for the current variable under consideration in this
          row. */
@@ -409,6 +413,7 @@ PGE_main( char *pg_filename ) {
   LinkedPG lpg;
   PG pg;
   int best_node;
+  double value;
 
   PgEvalContext pgec;
 
@@ -430,9 +435,9 @@ PGE_main( char *pg_filename ) {
 	 printf( "No initial belief state. Cannot give a single value.\n" );
     }
     else {
+	 value = PGEC_val( pgec, gInitialBelief, &best_node );
 	 printf( "Initial belief state value: %.2lf at node %d\n",
-		    PGEC_val( pgec, gInitialBelief, &best_node ),
-		    best_node );
+		    value, best_node );
 	 
     } /* if solution found */
   }
diff --git a/src/pg.c b/src/pg.c
index 1defd8d..dd86fa0 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -140,6 +140,11 @@ LPG_verify( LinkedPG orig_pg ) {
     for( z = 0; z < gNumObservations; z++ )
 	 {
 
+	   /* No neighbor is needed for an impossible observation. */
+	   if(( pg->neighbor[z] == INVALID_NODE )
+		 || ( pg->neighbor[z] == NO_INFO_NODE ))
+		continue;
+
 	   if( LPG_findNode( orig_pg, pg->neighbor[z] ) == NULL )
 		return( 0 );
 
-- 
2.43.0


From 6a36884931b25c5a8c43c1092743ffd636c408b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 12/51] fix: pomdp-tools: heap overflow in belief comparison,
 unset file handle and missing initial belief

---
 src/pomdp-tools-main.c | 4 ++--
 src/utils.c            | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pomdp-tools-main.c b/src/pomdp-tools-main.c
index 69ecd87..cdf5944 100644
--- a/src/pomdp-tools-main.c
+++ b/src/pomdp-tools-main.c
@@ -260,8 +260,6 @@ int main( int argc, char **argv )
 	 initializePomdp( tool_options->pomdp, 
 				   1e-5 );
 
-	 UTIL_doBeliefUpdates();
-
 	 if ( gInitialBelief == NULL )
 	   {
 		fprintf( stderr, 
@@ -271,6 +269,8 @@ int main( int argc, char **argv )
 		exit( -1 );
 	   }
 
+	 UTIL_doBeliefUpdates();
+
 	 cleanUpPomdp();
 	 break;
 
diff --git a/src/utils.c b/src/utils.c
index 4730ec2..ddc7388 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -411,7 +411,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	-1 sentinel list terminator, we need this list to have one more
 	element than the number of belief points.
   */
-  diff_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  diff_idx_list = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 							* sizeof( int ));
 
   /* The index list is assumed to contain non-negative integers, with
@@ -422,7 +422,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 
   /* Also want to keep track of those belief points where the maximal
 	differences occur (for convenience). */
-  maximal_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  maximal_idx_list = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 							   * sizeof( int ));
 
   maximal_idx_list[0] = -1;
@@ -614,7 +614,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 
   belief_list = readBeliefList( belief_filename, 0 );
   if ( belief_list == NULL ) {
-    fclose( file );
+    fprintf(gStdErrFile, 
+		  "** Error: The belief file: %s cannot be read.\n",
+		  belief_filename);
     return;
   }
 
-- 
2.43.0


From 63961ccdfc83d7245f15edb2233f2b3d30b1a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 13/51] fix: malformed numbers in alpha and belief files were
 ignored (endless loop or garbage vectors)

---
 src/alpha.c  | 21 +++++++++++++--------
 src/belief.c |  6 +++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 92f6708..f68673f 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1094,7 +1094,7 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i;
+   int a, i, num_read;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1116,16 +1116,21 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     if ( fscanf( file, "%d", &a ) == EOF )
+     if (( num_read = fscanf( file, "%d", &a )) == EOF )
        break;
      alpha = newAlpha();
      
-     for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( alpha[i] )) == EOF ) {
-         fprintf(gStdErrFile, 
-                 "** Error: Alpha vector file format incorrect.\n");
-         return ( NULL );
-       }
+     for ( i = 0; (num_read == 1) && (i < gNumStates); i++ )
+       num_read = fscanf( file, "%lf", &( alpha[i] ));
+
+     if ( num_read != 1 ) {
+       fprintf(gStdErrFile, 
+               "** Error: Alpha vector file format incorrect.\n");
+       XFREE( alpha );
+       destroyAlphaList( list );
+       fclose( file );
+       return ( NULL );
+     }
      
      appendAlphaList( list, alpha, a );
    }  /* while */
diff --git a/src/belief.c b/src/belief.c
index 0b70959..aa89453 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -184,7 +184,7 @@ readBeliefList( char *filename, int max )
     it will only read the first max_beliefs in the file.
   */
    FILE *file;
-   int i;
+   int i, num_read;
    double *b;
    BeliefList list = NULL;
    
@@ -208,12 +208,12 @@ readBeliefList( char *filename, int max )
      b = newBelief();
      
      for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( b[i] )) == EOF ) {
+       if (( num_read = fscanf( file, "%lf", &( b[i] ))) != 1 ) {
 
 	    /* We should run out of numbers to read when i == 0, since we
 		  need a number for each POMDP state in a belief.
 	    */
-	    if ( i > 0 ) {
+	    if (( i > 0 ) || ( num_read != EOF )) {
 		 fprintf(gStdErrFile, 
 			    "** Error: Belief list file format incorrect.\n");
 		 return ( NULL );
-- 
2.43.0


From 08c4803604c3bf837855051fd4ee3115bc6c9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 14/51] fix: restricted-region and generalized incremental
 pruning lost vectors when a projection set held copies

---
 src/inc-prune.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index 0c5b023..423cca8 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -88,12 +88,15 @@ void
 addSimpleSumIp( AlphaList new_list, 
 		AlphaList old_list, 
 		AlphaList add_node,
-		AlphaList skip_node ) 
+		AlphaList skip_node,
+		double epsilon ) 
 {
   /*
     For each vector in the 'old' list, it adds a vector to the 'new'
     list that had the vector in 'add_node' added to it.  It will ignore
-    the node that is equal to 'skip_node' when doing this.
+    the node 'skip_node' and any copies of its vector when doing this:
+    a sum with a copy is the very vector being tested, which can never
+    be better than itself.
   */
   AlphaList new_node;
   int i;
@@ -106,7 +109,8 @@ addSimpleSumIp( AlphaList new_list,
   old_list = old_list->head;
   while( old_list != NULL ) {
     
-    if ( old_list != skip_node ) {
+    if (( old_list != skip_node )
+        && ! sameAlpha( old_list->alpha, skip_node->alpha, epsilon )) {
       new_node = appendAlphaList( new_list, 
                                   duplicateAlpha( old_list->alpha ),
                                   old_list->action );
@@ -157,7 +161,8 @@ AlphaList
 getGenIpCompareList( AlphaList node, 
 		     AlphaList A, AlphaList B,
 		     AlphaList cur_list,
-		     GeneralizedIpChoice ip_type ) 
+		     GeneralizedIpChoice ip_type,
+		     double epsilon ) 
 {
   /*
     Based on the parameters, returns a pointer to an AlphaList
@@ -188,9 +193,9 @@ getGenIpCompareList( AlphaList node,
     compare_list = newAlphaList();
     SHOULD_DESTROY(compare_list) = TRUE;
     addSimpleSumIp( compare_list, A, node->second_source,
-                    node->first_source );
+                    node->first_source, epsilon );
     addSimpleSumIp( compare_list, B, node->first_source,
-                    node->second_source );
+                    node->second_source, epsilon );
     break;
 
   case GeneralizedIp:
@@ -224,14 +229,14 @@ getGenIpCompareList( AlphaList node,
          < ( COUNT(node->second_source) + B->length)) {
       
       addSimpleSumIp( compare_list, A, node->second_source,
-                      node->first_source );
+                      node->first_source, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            node->first_source, NULL );
     }
 
     else {
       addSimpleSumIp( compare_list, B, node->first_source,
-                      node->second_source );
+                      node->second_source, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            NULL, node->second_source );
 
@@ -326,6 +331,15 @@ generalizedIpCrossSum( AlphaList A,
     /* Remove a node from the original list. */
     cur_node = dequeueAlphaNode( search_list );
 
+    /* When A or B holds copies of a vector, then so does the cross
+       sum, and the comparison list leaves out the copies of this
+       node. Only one of them should be added. */
+    if ( queryAlphaList( new_list, cur_node->alpha, 
+                         param->alpha_epsilon )) {
+      destroyAlphaNode( cur_node );
+      continue;
+    }
+
     /* This is where we determine which list should be used. It will
        set a field in this list to tell us whether we will need to
        destroy the list when we are done with it.  In some cases this
@@ -333,7 +347,8 @@ generalizedIpCrossSum( AlphaList A,
        do not want to destroy) and in other cases return a list that
        was temporarily constructed for comparison purpose. */
     compare_list = getGenIpCompareList( cur_node, A, B, 
-                                        new_list, param->ip_type );
+                                        new_list, param->ip_type,
+                                        param->alpha_epsilon );
 
     /* See if this node gives us a witness point that there must be a
        vector to be added to new list from original list. */
-- 
2.43.0


From ef42959d06c4291c9ddacedf117a162e3fba3dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 15/51] fix: bellman stop criterion ignored negative values of
 cost models

The minimum immediate reward was taken over the costs themselves, although
they are negated before use, so bellmanError() compared in one direction only
and value iteration stopped before the requested error was reached.
---
 src/mdp/mdp.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mdp/mdp.c b/src/mdp/mdp.c
index 4cdafa1..b666c30 100644
--- a/src/mdp/mdp.c
+++ b/src/mdp/mdp.c
@@ -370,14 +370,18 @@ computeRewards() {
 	
       }  /* for j */
 
-      /* Update the minimum reward we are maintaining. */
+      addEntryToIMatrix( IQ, a, i, sum );
+
+      /* Update the minimum reward we are maintaining.  Costs are
+         negated before they are used (see getAdjustedReward()). */
+      if( gValueType == COST_value_type )
+        sum *= -1.0;
+
       gMinimumImmediateReward 
         = (gMinimumImmediateReward) < (sum) 
         ? (gMinimumImmediateReward) 
         : (sum);
 
-      addEntryToIMatrix( IQ, a, i, sum );
-
     }  /* for i */
 
 }  /* computeRewards */
-- 
2.43.0


From 4022eb3db35ab3da5786f5af9dbd60807943c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 16/51] fix: exact stop criterion compared the lists in file
 order

A starting solution that is not sorted was never recognised as equal, so an
epoch too many was computed.
---
 src/pomdp-solve.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 4bb6179..bf42f36 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -481,16 +481,15 @@ meetStopCriteria( AlphaList prev_alpha_list,
 	 switch( param->opts->stop_criteria ) {
 	 case POMDP_SOLVE_OPTS_Stop_Criteria_exact:
 	   
-	   /* The exact stopping criteria is sensitive to the ordering of the
-		 vectors.  Thus, we will sort the current solution before doing
-  		 this comparison.  We will assume that the previous  soltuion is
-		 already sorted as a result of the previous call to this routine
-		 when it would have been the "current" solution. */
+	   /* The lists are compared regardless of the order of their
+		 vectors: a starting solution read from a file need not be
+		 sorted, and vectors that differ by less than the epsilon can
+		 be ordered differently in the two lists. */
 	   sortAlphaList( cur_alpha_list );
 	   
-	   if ( sameAlphaList( prev_alpha_list, 
-					   cur_alpha_list,
-					   param->alpha_epsilon )) {
+	   if ( similarAlphaList( prev_alpha_list, 
+						 cur_alpha_list,
+						 param->alpha_epsilon )) {
 		*error = 0.0;
 		endContext( param->stat, Context_Stop_Criteria );
 		return ( TRUE );
-- 
2.43.0


From 8b2ddff01c476349a7df722e05ff0b0a4297a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 17/51] fix: copies of vector lists lost each vector's number

copyAlphaList() copied the header's fields into every node, so policy graphs
computed from a terminal value function had no successors.
---
 src/alpha.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index f68673f..242f126 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -900,17 +900,16 @@ copyAlphaList( AlphaList dest_list,
 
     /* Copy all the fields, though the burden on the being sane values
        lies in the orginal list. */
-    temp->id = src_list->id;
-    temp->obs = src_list->obs;
-    temp->prev_source = src_list->prev_source;
-    temp->next = src_list->next;
-    temp->first_source = src_list->first_source;
-    temp->second_source = src_list->second_source;
-    temp->mark = src_list->mark;
-    temp->hook = src_list->hook;
-    temp->length = src_list->length;
-    temp->head = src_list->head;
-    temp->tail = src_list->tail;
+    temp->id = list->id;
+    temp->obs = list->obs;
+    temp->prev_source = list->prev_source;
+    temp->first_source = list->first_source;
+    temp->second_source = list->second_source;
+    temp->mark = list->mark;
+    temp->hook = list->hook;
+    temp->length = list->length;
+    temp->head = list->head;
+    temp->tail = list->tail;
     
     temp->obs_source = NULL;
     temp->witness = NULL;
-- 
2.43.0


From 46e5d800cf6211bd8225ce53e0f5fd636ebdd9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 18/51] fix: grid method printed debugging output on stdout for
 every belief

---
 src/common.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/common.c b/src/common.c
index c73f74d..71a19da 100644
--- a/src/common.c
+++ b/src/common.c
@@ -329,17 +329,6 @@ setBestAlphasForBeliefV( double *b, AlphaList **projection, double epsilon )
       && bestAlphaForBeliefQ( gCurAlphaVector[a], b, 
                               projection[a], epsilon );
    
-  // PBVI:
-  printf( "Belief: " );
-  showAlpha( b );
-
-  printf( "Alphas:\n" );
-  for( a = 0; a < gNumActions; a++ )
-    {
-	 printf( "a=%d : ", a );
-	 showAlpha( gCurAlphaVector[a]->alpha );
-    }
-
   return ( result );
 }  /* setBestAlphasForBeliefV */
 /**********************************************************************/
-- 
2.43.0


From ac114ab97b7718964069064444526c14fba17583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 19/51] fix: belief update tool: first word of a line overran a
 255 byte buffer

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index ddc7388..a72abf4 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1493,7 +1493,7 @@ UTIL_doBeliefUpdates()
   char *post_action_ptr;
   char *post_obs_ptr;
 
-  char line_init[255];
+  char line_init[1024] = "";
 
   prev_belief = newBelief();
   next_belief = newBelief();
-- 
2.43.0


From 1d496774538b83cd240b7ea0c7da962edd43d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:53 +0000
Subject: [PATCH 20/51] fix: pg_eval: best node of a model with costs is the
 one with the lowest cost

---
 src/pg-eval.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index 741906c..40d4a59 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -168,8 +168,13 @@ PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
 */
   double max_sum = -1.0 * HUGE_VAL;
   double cur_sum;
+  double sign;
   int cur_node, state;
 
+  /* The node values are in the model's own terms: the best node is the
+     one with the lowest cost, if the model has costs. */
+  sign = ( gValueType == COST_value_type ) ? -1.0 : 1.0;
+
   *best_node = -1;
 
   for ( cur_node = 0; cur_node < pgec->num_nodes; cur_node++ ) {
@@ -177,7 +182,7 @@ PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
     cur_sum = 0.0;
 
     for ( state = 0; state < pgec->num_states; state++ )
-      cur_sum += pgec->soln[state][cur_node] * b[state];
+      cur_sum += sign * pgec->soln[state][cur_node] * b[state];
 
     if ( cur_sum > max_sum ) {
       max_sum = cur_sum;
@@ -186,7 +191,7 @@ PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
 
   } /* for cur_node */
 
-  return ( max_sum );
+  return ( sign * max_sum );
 
 }  /* PGEC_val */
 /**********************************************************************/
-- 
2.43.0


From 121397b87b24b086b347b11da61140d0a69346c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 21/51] fix: pg_eval printed unconverged values for discount
 factors near one

---
 src/laspack-util.h | 2 +-
 src/pg-eval.c      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/laspack-util.h b/src/laspack-util.h
index 236b493..b70f3a5 100644
--- a/src/laspack-util.h
+++ b/src/laspack-util.h
@@ -20,7 +20,7 @@
 /* Arguments for the LASPACK iterative solver. */
 #define ITER_SOLVE_ACCURACY                1e-5
 #define JACOBI_PRECON_OMEGA                0.8
-#define MAX_JACOBI_ITERATIONS              1000
+#define MAX_JACOBI_ITERATIONS              1000000
 
 extern void showVector( Vector *v );
 extern void showQMatrix( QMatrix *M );
diff --git a/src/pg-eval.c b/src/pg-eval.c
index 40d4a59..aa35a16 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -368,7 +368,8 @@ PGE_evaluate( PG pg, PgEvalContext pgec ) {
   V_SetAllCmp( &(pgec->x), 0.0 );
   JacobiIter( &(pgec->A), &(pgec->x), &(pgec->b), 
               MAX_JACOBI_ITERATIONS, JacobiPrecond, JACOBI_PRECON_OMEGA );
-  if ( LASResult() != LASOK)  {
+  if (( LASResult() != LASOK )
+      || ( GetLastNoIter() >= MAX_JACOBI_ITERATIONS ))  {
     Warning( "evaluatePG() Trouble trying to solve the system of equations." );
     WriteLASErrDescr(stdout);
     Q_Destr( &(pgec->A) );
-- 
2.43.0


From 508809fab70d8e3fcec09bafca481c091a725b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:56 +0000
Subject: [PATCH 22/51] fix: policy graph files: malformed numbers and bad node
 numbers were not refused

---
 src/pg.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index dd86fa0..5b456b9 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -170,18 +170,23 @@ LPG_scanf( FILE *file, int verify ) {
   int *neighbor;
   int z;
   char int_str[MAX_MSG_LENGTH];
+  char *end_ptr;
+  int num_read;
   int count = 0;
 
   neighbor = (int *) XMALLOC( gNumObservations * sizeof( int ));
 
    while( 1 ) {
 
-     if( fscanf( file, "%d", &id ) == EOF )
+     num_read = fscanf( file, "%d", &id );
+
+     if( num_read == EOF )
        break;
 
-     if( fscanf( file, "%d", &action ) == EOF ) {
+     if(( num_read != 1 ) 
+	   || ( fscanf( file, "%d", &action ) != 1 )) {
 	  LPG_destroy( lpg );
-	  Warning( "Not enough values in the policy graph file.");
+	  Warning( "Bad or not enough values in the policy graph file.");
 	  return( NULL );
      }
 
@@ -195,7 +200,7 @@ LPG_scanf( FILE *file, int verify ) {
 	
 	for( z = 0; z < gNumObservations; z++ ) {
 	 
-	  if ( fscanf( file, "%s", int_str) == EOF )
+	  if ( fscanf( file, "%1095s", int_str) != 1 )
 	    {
 		 LPG_destroy( lpg );
 		 Warning("Not enough values in the policy graph file." );
@@ -207,7 +212,16 @@ LPG_scanf( FILE *file, int verify ) {
 	  else if ( strcmp( int_str, NO_INFO_NODE_STR ) == 0 )
 	    neighbor[z] = NO_INFO_NODE;
 	  else
-	    neighbor[z] = atoi( int_str );
+	    {
+		 neighbor[z] = strtol( int_str, &end_ptr, 10 );
+
+		 if ( *end_ptr != '\0' )
+		   {
+			LPG_destroy( lpg );
+			Warning( "Bad node number in the policy graph file." );
+			return NULL;
+		   }
+	    }
 	}
 
 	lpg = LPG_addNode( lpg, id, action, neighbor );
@@ -578,11 +592,17 @@ PG PG_convertLPGToPG( LinkedPG old_pg ) {
 */
 
   PG pg;
-  int z;
+  int n, size, z;
 
   Assert ( old_pg != NULL, "Bad parameters" );
 
-  pg = PG_Constructor( LPG_size( old_pg ), gNumStates,
+  /* The ids are used as indices below. */
+  size = LPG_size( old_pg );
+  for ( n = 0; n < size; n++ )
+    if ( LPG_findNode( old_pg, n ) == NULL )
+	 Abort( "The nodes of a policy graph must be numbered from zero." );
+
+  pg = PG_Constructor( size, gNumStates,
                        gNumActions, gNumObservations );
   
   while( old_pg != NULL ) {
-- 
2.43.0


From 23ca522ffa1238fbcf7018e6f339597b68f02e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:22 +0000
Subject: [PATCH 23/51] fix: policy graph output wrote -2 for missing links
 instead of '-'

---
 src/pg.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 5b456b9..6a51525 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -505,10 +505,9 @@ PG_printf( PG pg, FILE *file  )
 	 fprintf( file, "%d %d  ", n, pg->action[n] );
 	 
 	 for( z = 0; z < pg->num_obs; z++ )
-	   if ( pg->next[n][z] != INVALID_NODE )
+	   if (( pg->next[n][z] != INVALID_NODE )
+		  && ( pg->next[n][z] != NO_INFO_NODE ))
 		fprintf( file, "%d ", pg->next[n][z] );
-	   else if ( pg->next[n][z] == NO_INFO_NODE )
-		fprintf( file, "%s ", INVALID_NODE_STR );
 	   else
 		fprintf( file, "%s ", NO_INFO_NODE_STR );
 	 
-- 
2.43.0


From f19aff0604e596bd11e0e0db6b3bc77a7ae4f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:47 +0000
Subject: [PATCH 24/51] fix: an incomplete random seed left parts of the seed
 unset

---
 src/random.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/random.c b/src/random.c
index bc957eb..840f1be 100644
--- a/src/random.c
+++ b/src/random.c
@@ -112,11 +112,11 @@ setRandomSeedFromString ( char *str )
   int s[SEED_SIZE];
   int i;
 
-  /* zzz Need to add something to check for too many and too few
-     values. Also need to make this a function of SEED_SIZE and not
-     hard coded as '3'. */  
+  /* zzz Need to make this a function of SEED_SIZE and not hard coded
+     as '3'. */  
   
-  sscanf( str, "%d:%d:%d", &s[0], &s[1], &s[2] );	
+  if ( sscanf( str, "%d:%d:%d", &s[0], &s[1], &s[2] ) != 3 )
+    Abort( "The random seed must have the form 'N:N:N'." );
   
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
-- 
2.43.0


From 1c1cc94ed725b896f921fc5d03b8d2116f56f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:16 +0000
Subject: [PATCH 25/51] fix: finite grid: an observation that never occurs put
 a NaN belief into the search grid

---
 src/finite-grid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 960b76e..7b739e7 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -216,6 +216,10 @@ genAllBeliefStates( PomdpSolveParams param )
 
 	 } /* for state */
 
+	 /* No belief state goes with an observation that never occurs. */
+	 if ( num_found == 0 )
+	   continue;
+
 	 /* Create a belief state uniform over this set of states */
 	 for( state = 0; state < gNumStates; state++ )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
-- 
2.43.0


From 496f322919d0577144ae3cdc3ec4a1394f5faace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 26/51] fix: the unimplemented fixed_soln_size variation ended
 with a success status

---
 src/pomdp-solve.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index bf42f36..0b39272 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -701,9 +701,7 @@ doFixedSolnSizeVariation( PomdpSolveParams param )
                            cur_epsilon,
                            param->stat );
 
-  fprintf( stderr, "doFixedSolnSizeVariation() says:\n" );
-  fprintf( stderr, "!!! Implement me !!!\n" );
-  exit( 0 );
+  Abort( "Fixed solution size variation not yet available. Sorry." );
 
 }  /* doFixedSolnSizeVariation */
 /**********************************************************************/
-- 
2.43.0


From 7c4f7c8506a061587751f2e9248cff6c9defb48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 27/51] fix: option values: numbers too large for an int
 wrapped around, nan was accepted

---
 src/program-options.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 25084a9..ee66e78 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -50,6 +50,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <limits.h>
 
 #include "global.h"
 #include "command-line.h"
@@ -577,6 +578,7 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
   int str_result;
   char found_str[MAX_OPT_STRING_LEN];
   char *end_ptr;
+  long value;
 
   if (( opts == NULL )
 	 || ( opt_name == NULL )
@@ -588,12 +590,18 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = strtol( found_str, &end_ptr, 10 );
+  value = strtol( found_str, &end_ptr, 10 );
 
   /* The whole string has to be a number. */
   if (( end_ptr == found_str ) || ( *end_ptr != '\0' ))
     return PO_OPT_PRESENT_ERROR;
 
+  /* Numbers too large for an integer must not wrap around. */
+  if (( value < INT_MIN ) || ( value > INT_MAX ))
+    return PO_OPT_PRESENT_ERROR;
+
+  *ret_value = value;
+
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
     return PO_OPT_PRESENT_VALID;
@@ -639,7 +647,8 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
   *ret_value = strtod( found_str, &end_ptr );
 
   /* The whole string has to be a number. */
-  if (( end_ptr == found_str ) || ( *end_ptr != '\0' ))
+  if (( end_ptr == found_str ) || ( *end_ptr != '\0' )
+	 || ( *ret_value != *ret_value ))
     return PO_OPT_PRESENT_ERROR;
 
   /* This is the special case where we have no bounds on the value. */
-- 
2.43.0


From 7a9ad385ec618f3a2f27493f956185cb57ce4b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 28/51] fix: vector and belief files: numbers run together were
 taken apart instead of refused

---
 src/alpha.c  | 32 +++++++++++++++++++++++++++++---
 src/belief.c | 22 +++++++++++++++++++---
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 242f126..bdb287b 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -16,6 +16,8 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <ctype.h>
+#include <limits.h>
 #include <math.h>
 
 #include "mdp/mdp.h"
@@ -1073,6 +1075,23 @@ showAlphaList( AlphaList list )
   displayAlphaList( stdout, list );
 }  /* showAlphaList */
 /**********************************************************************/
+static int
+numberEnded( FILE *file ) 
+{
+  /*
+    Returns TRUE if there is white space or the end of the file right
+    after the last number read, so that things like "1.5" are not taken
+    as the action number 1 and the value .5.
+  */
+  int c = getc( file );
+
+  if ( c != EOF )
+    ungetc( c, file );
+
+  return (( c == EOF ) || isspace( c ));
+
+}  /* numberEnded */
+/**********************************************************************/
 AlphaList 
 readAlphaList( char *filename, int max_alphas ) 
 {
@@ -1093,7 +1112,8 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i, num_read;
+   int i, num_read;
+   long a;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1115,12 +1135,18 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     if (( num_read = fscanf( file, "%d", &a )) == EOF )
+     if (( num_read = fscanf( file, "%ld", &a )) == EOF )
        break;
+     if (( num_read == 1 )
+         && ( ! numberEnded( file ) || ( a < INT_MIN ) || ( a > INT_MAX )))
+       num_read = 0;
      alpha = newAlpha();
      
-     for ( i = 0; (num_read == 1) && (i < gNumStates); i++ )
+     for ( i = 0; (num_read == 1) && (i < gNumStates); i++ ) {
        num_read = fscanf( file, "%lf", &( alpha[i] ));
+       if (( num_read == 1 ) && ! numberEnded( file ))
+         num_read = 0;
+     }
 
      if ( num_read != 1 ) {
        fprintf(gStdErrFile, 
diff --git a/src/belief.c b/src/belief.c
index aa89453..e095038 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -15,6 +15,7 @@
  */
 
 #include <stdio.h>
+#include <ctype.h>
 #include <math.h>
 #include <stdlib.h>
 
@@ -184,7 +185,7 @@ readBeliefList( char *filename, int max )
     it will only read the first max_beliefs in the file.
   */
    FILE *file;
-   int i, num_read;
+   int c, i, num_read;
    double *b;
    BeliefList list = NULL;
    
@@ -207,8 +208,21 @@ readBeliefList( char *filename, int max )
 
      b = newBelief();
      
-     for ( i = 0; i < gNumStates; i++ )
-       if (( num_read = fscanf( file, "%lf", &( b[i] ))) != 1 ) {
+     for ( i = 0; i < gNumStates; i++ ) {
+
+       num_read = fscanf( file, "%lf", &( b[i] ));
+
+       /* A number must be followed by white space, or else something
+          like "1.2.3" would be taken as two numbers. */
+       if ( num_read == 1 ) {
+	    if (( c = getc( file )) != EOF ) {
+		 ungetc( c, file );
+		 if ( ! isspace( c ))
+		   num_read = 0;
+	    }
+       }
+
+       if ( num_read != 1 ) {
 
 	    /* We should run out of numbers to read when i == 0, since we
 		  need a number for each POMDP state in a belief.
@@ -216,12 +230,14 @@ readBeliefList( char *filename, int max )
 	    if (( i > 0 ) || ( num_read != EOF )) {
 		 fprintf(gStdErrFile, 
 			    "** Error: Belief list file format incorrect.\n");
+		 fclose( file );
 		 return ( NULL );
 	    }
 	    else 
 		 goto RBL_DONE;
 		 
        }
+     }
      
      list = appendBeliefList( list, b );
    }  /* while */
-- 
2.43.0


From 51f331365a3aa2296c6246ba3d77f415ed5e998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 29/51] fix: lp_solve: test the row number before reading the
 pivot column

rowprim() looked at pcol[rows + 1], one element past the end of the array, when no entry of the pivot column was negative.
---
 src/lp-solve/solve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index bf0b769..ad36d29 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -703,7 +703,7 @@ static short rowprim(lprec *lp,
       else
         {
           i = 1;
-          while(pcol[i] >= 0 && i <= lp->rows)
+          while(i <= lp->rows && pcol[i] >= 0)
             i++;
           if(i > lp->rows) /* empty column with upperbound! */
             {
-- 
2.43.0


From 5298307e870f3460b00041cbef414c3a036f4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 30/51] fix: interrupt before the first epoch aborted in
 destroyAlphaList()

---
 src/pomdp-solve.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 0b39272..3ce78fb 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -1148,7 +1148,11 @@ solvePomdp( PomdpSolveParams param )
      pointers to nowhere.  Thus, we free them in the other order to
      show this dependency explicitly. */
   destroyAlphaList( next_alpha_list );
-  destroyAlphaList( prev_alpha_list );
+
+  /* There is no previous value function if we were interrupted before
+     the first epoch started. */
+  if ( prev_alpha_list != NULL )
+    destroyAlphaList( prev_alpha_list );
 
   /* We were writing out a backup file after each iteration, but now
      that we are done, remove it. */
-- 
2.43.0


From 390ee44478cf416ab4409d600f323255632b9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 31/51] fix: interrupt arriving just after its handler is
 installed was discarded

---
 src/signal-handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal-handler.c b/src/signal-handler.c
index 38a1c10..ce87066 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -266,8 +266,8 @@ setUpCtrlC(  )
     Registers the signal handler for the SIGINT signal which is
     generated by pressing CRTL-C.
   */
-  signal(SIGINT, signalHandlerSIGINT );
   gInterrupt = FALSE;
+  signal(SIGINT, signalHandlerSIGINT );
 
 }  /* setUpCtrlC */
 /**********************************************************************/
-- 
2.43.0


From ea229fc1a4c69bbc289013c5d660560ae35b8d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:44 +0000
Subject: [PATCH 32/51] fix: failing writes of solution files were not reported

---
 src/alpha.c  | 8 +++++++-
 src/belief.c | 8 +++++++-
 src/pg.c     | 6 +++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index bdb287b..ff86a28 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1196,6 +1196,7 @@ saveAlphaList( AlphaList list, char *filename )
     but makes reading it in trivial.
   */
    FILE *file;
+   int failed;
    
    if ((file = fopen(filename , "w")) == NULL) {
      fprintf(gStdErrFile, 
@@ -1206,7 +1207,12 @@ saveAlphaList( AlphaList list, char *filename )
    
    writeAlphaList( file, list );
    
-   fclose( file );
+   /* Buffered data may only fail to get written now (e.g., disk full). */
+   failed = ferror( file );
+   if (( fclose( file ) != 0 ) || failed )
+     fprintf(gStdErrFile, 
+             "** Error: The alpha vector file: %s cannot be written.\n",
+             filename);
 }  /* saveAlphaList */
 /**********************************************************************/
 void 
diff --git a/src/belief.c b/src/belief.c
index e095038..1dd7328 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -143,6 +143,7 @@ saveBeliefList( BeliefList list, char *filename )
     but makes reading it in trivial.
   */
    FILE *file;
+   int failed;
    
    if ((file = fopen(filename , "w")) == NULL) {
      fprintf(gStdErrFile, 
@@ -153,7 +154,12 @@ saveBeliefList( BeliefList list, char *filename )
    
    writeBeliefList( file, list );
    
-   fclose( file );
+   /* Buffered data may only fail to get written now (e.g., disk full). */
+   failed = ferror( file );
+   if (( fclose( file ) != 0 ) || failed )
+     fprintf(gStdErrFile, 
+             "** Error: The belief list file: %s cannot be written.\n",
+             filename);
 }  /* saveBeliefList */
 /**********************************************************************/
 void 
diff --git a/src/pg.c b/src/pg.c
index 6a51525..269ea1e 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -549,6 +549,7 @@ void
 PG_write( PG pg, char *filename  ) 
 {
   FILE *file;
+  int failed;
 
   Assert( pg != NULL && filename != NULL, "Bad parameters" );
 
@@ -560,7 +561,10 @@ PG_write( PG pg, char *filename  )
   
   PG_printf( pg, file );
   
-  fclose( file );
+  /* Buffered data may only fail to get written now (e.g., disk full). */
+  failed = ferror( file );
+  if (( fclose( file ) != 0 ) || failed )
+    Warning( "Cannot write policy graph file." );
 }  /* PG_write */
 
 /**********************************************************************/
-- 
2.43.0


From 1deefe1ece9ec0ac7d2166cb5c25739cb101c3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 33/51] fix: the recovery file was removed even if the solution
 could not be written

---
 src/alpha.c       | 13 +++++++++----
 src/alpha.h       |  5 +++--
 src/pomdp-solve.c | 19 +++++++++++++------
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index ff86a28..abfb737 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1187,13 +1187,14 @@ writeAlphaList( FILE *file, AlphaList list )
 
 } /* writeAlphaList */
 /**********************************************************************/
-void 
+int 
 saveAlphaList( AlphaList list, char *filename ) 
 {
   /*
     Write the alpha list out to a file in the format that
     readAlphaList() will read them in.  It is not a very pretty format,
-    but makes reading it in trivial.
+    but makes reading it in trivial.  Returns TRUE if the file was
+    completely written and FALSE otherwise.
   */
    FILE *file;
    int failed;
@@ -1202,17 +1203,21 @@ saveAlphaList( AlphaList list, char *filename )
      fprintf(gStdErrFile, 
              "** Error: The alpha vector file: %s cannot be opened.\n",
              filename);
-     return;
+     return ( FALSE );
    }
    
    writeAlphaList( file, list );
    
    /* Buffered data may only fail to get written now (e.g., disk full). */
    failed = ferror( file );
-   if (( fclose( file ) != 0 ) || failed )
+   if (( fclose( file ) != 0 ) || failed ) {
      fprintf(gStdErrFile, 
              "** Error: The alpha vector file: %s cannot be written.\n",
              filename);
+     return ( FALSE );
+   }
+
+   return ( TRUE );
 }  /* saveAlphaList */
 /**********************************************************************/
 void 
diff --git a/src/alpha.h b/src/alpha.h
index a565a7b..5c28419 100644
--- a/src/alpha.h
+++ b/src/alpha.h
@@ -391,8 +391,9 @@ extern AlphaList readAlphaList( char *filename,
 extern void writeAlphaList( FILE *file, AlphaList list );
 
 /* Write the alpha list out to a file in the format that
-  readAlphaList() will read them in.   */
-extern void saveAlphaList( AlphaList list, 
+  readAlphaList() will read them in.  Returns TRUE if the file was
+  completely written and FALSE otherwise.  */
+extern int saveAlphaList( AlphaList list, 
                             char *filename );
 
 /* Takes the union of the two lists sent in and returns the union in
diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 3ce78fb..c47c828 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -236,17 +236,20 @@ cleanUpPomdpSolve( PomdpSolveParams param )
   
 }  /* cleanUpPomdpSolve */
 /**********************************************************************/
-void 
+int 
 endPomdpSolve( PomdpSolveParams param,
 	       AlphaList solution ) 
 {
   /* 
+     Returns TRUE if the value function file was completely written.
+
      The gSuccinct variable is used when we want a very concise reporting
      of the results of the program.  This is useful for running series
      of experiments and combining the results. Thus, we only output
      out final report if we are not being brief. 
   */
   AlphaList scaled_list;
+  int saved;
 
   Assert( param != NULL && solution != NULL, 
           "Bad (NULL) parameters." );
@@ -258,13 +261,13 @@ endPomdpSolve( PomdpSolveParams param,
      structure. */
   if ( valuesRequireScaling() ) {
     scaled_list = makeScaledAlphaList( solution, param->update_count );
-    saveAlphaList( scaled_list, param->alpha_filename );
+    saved = saveAlphaList( scaled_list, param->alpha_filename );
     destroyAlphaList( scaled_list );
   } /* if values required scaling */
 
   /* Otherwise, no scaling required so just write out the list. */
   else
-    saveAlphaList( solution, param->alpha_filename );
+    saved = saveAlphaList( solution, param->alpha_filename );
 
   APG_writePolicyGraph( solution, param->pg_filename );
   
@@ -286,6 +289,7 @@ endPomdpSolve( PomdpSolveParams param,
   /* Show all program stats depending upon execution parameters.. */
   reportStats( param->stat );
  
+  return ( saved );
 }  /* endPomdpSolve */
 /**********************************************************************/
 AlphaList 
@@ -967,6 +971,7 @@ solvePomdp( PomdpSolveParams param )
   AlphaList prev_alpha_list = NULL;
   AlphaList next_alpha_list;
   int done = FALSE;
+  int saved;
   double cur_error;
 
   Assert( param != NULL,
@@ -1140,7 +1145,7 @@ solvePomdp( PomdpSolveParams param )
      time. Also write the solution files, but note that this must be
      done before we clear the prev_alpha_list to ensure policy graph
      information is preserved. */
-  endPomdpSolve( param, next_alpha_list );
+  saved = endPomdpSolve( param, next_alpha_list );
   
   /* Get rid of previous and next value functions.  Note that at this
      point there are obs_source pointers from next_alpha_list into
@@ -1155,8 +1160,10 @@ solvePomdp( PomdpSolveParams param )
     destroyAlphaList( prev_alpha_list );
 
   /* We were writing out a backup file after each iteration, but now
-     that we are done, remove it. */
-  removeFile( param->backup_file );
+     that we are done, remove it, unless it is the only file that has
+     the solution. */
+  if ( saved == TRUE )
+    removeFile( param->backup_file );
 
 }  /* solvePomdp */
 /**********************************************************************/
-- 
2.43.0


From 95ae98571fbc442263984f976ca98949133a414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:27 +0000
Subject: [PATCH 34/51] fix: dying while the recovery file is rewritten left a
 truncated or empty one

---
 src/pomdp-solve.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index c47c828..a8009b0 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -386,6 +386,24 @@ handleSaveAll( AlphaList list, PomdpSolveParams param )
 
 }  /* handleSaveAll */
 /**********************************************************************/
+static void 
+saveBackup( AlphaList list, char *filename ) 
+{
+  /*
+    Replaces the backup file of the previous epoch.  The new one is first
+    written under another name, so that at any moment there is a complete
+    one, no matter when we get terminated.
+  */
+  char temp_filename[MAX_FILENAME_LENGTH+1];
+
+  sprintf( temp_filename, "%s~", filename );
+
+  if (( saveAlphaList( list, temp_filename ) == FALSE )
+      || ( rename( temp_filename, filename ) != 0 ))
+    removeFile( temp_filename );
+
+}  /* saveBackup */
+/**********************************************************************/
 
 /**********************************************************************/
 /********  Routines for mid value iteration tests and checks   ********/
@@ -1128,7 +1146,7 @@ solvePomdp( PomdpSolveParams param )
        abnormal termination will leave the lastest epoch's
        solution.  This will allow you to start it with the last
        solution and not have to re-run it. */
-    saveAlphaList( next_alpha_list, param->backup_file ); 
+    saveBackup( next_alpha_list, param->backup_file ); 
 
     /* If we are using a variation on value iteration, then we may
        need to adjust some parameters (epsilon) after an epoch.
-- 
2.43.0


From 3e9d99aaa0cbd18991f151195519d639b84a821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 35/51] fix: time limit expiring while the program cleans up
 crashed it or used freed memory

---
 src/pomdp-solve.c    |  2 ++
 src/signal-handler.c | 11 +++++++++++
 src/signal-handler.h |  3 +++
 3 files changed, 16 insertions(+)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index a8009b0..4088568 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -183,6 +183,8 @@ initPomdpSolve( PomdpSolveParams param )
 void 
 cleanUpPomdpSolve( PomdpSolveParams param ) 
 {
+  /* We are done, so being out of time does not matter anymore. */
+  cancelIntervalTimer();
 
   switch ( param->opts->method ) {
   case POMDP_SOLVE_OPTS_Method_enum:
diff --git a/src/signal-handler.c b/src/signal-handler.c
index ce87066..cdc8187 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -221,6 +221,17 @@ setUpIntervalTimer( int secs )
 }  /* setUpIntervalTimer */
 /**********************************************************************/
 void 
+cancelIntervalTimer(  ) 
+{
+  /*  
+      Turns the time limit off.  Needed before freeing what the handler
+      uses for its report.
+  */
+   signal(SIGVTALRM, SIG_IGN);
+
+}  /* cancelIntervalTimer */
+/**********************************************************************/
+void 
 setMemoryLimit( int mem_size_limit ) 
 {
   /* 
diff --git a/src/signal-handler.h b/src/signal-handler.h
index 86a2734..2c0dc1e 100644
--- a/src/signal-handler.h
+++ b/src/signal-handler.h
@@ -37,6 +37,9 @@ extern int gInterrupt;
    maximum number of seconds we will allow the program to run for.  */
 extern void setUpIntervalTimer( int secs );
 
+/* Turns the time limit off. */
+extern void cancelIntervalTimer(  );
+
 /* Sets the hard virtual memory size limit.  If process exceeds this
    limit, then the SIGSEGV signal will be generated.  We also try to
    catch this signal, but we are carefull not to assume that every
-- 
2.43.0


From 36f921fef53c8c49cfa760c3c62fbb63e01e1da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 36/51] fix: comparing vector lists at more than 98 belief
 points aborted

The lists of belief points (and of best vectors) had room for 100 entries,
whatever the number of points in the belief file.
---
 src/utils.c | 100 ++++++++++++++--------------------------------------
 src/utils.h |   9 -----
 2 files changed, 27 insertions(+), 82 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index a72abf4..85951c4 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -36,41 +36,30 @@ double gUtilEpsilon = 1.0e-9;
 
 /**********************************************************************/
 /* Simple helper routine for dealing with a list of non-negative integers
-   implemented as a fixed size array with a -1 sentinel terminator.
+   implemented as an array with a -1 sentinel terminator.
    This returns the number of elements in the list.
 */
 int
 UTIL_sizeIndexList( int *index_list )
 {
-  int count, i;
+  int count;
 
   count = 0;
   
-  for ( i = 0; i < MAX_BEST_COUNT; i++ )
-    {
-	 if ( index_list[i] < 0 )
-	   return count;
-
-	 count++;
-    }
-  
-  fprintf( stderr, "%s %s",
-		 "Non-terminated index list.",
-		 "This seems to be some internal coding error.\n" );
-  exit( 1 );
+  while ( index_list[count] >= 0 )
+    count++;
 
+  return count;
 }
 
 /**********************************************************************/
 /* Simple helper routine for dealing with a list of non-negative integers
-   implemented as a fixed size array with a -1 sentinel terminator.
+   implemented as an array with a -1 sentinel terminator.
    This appends the 'index' parameter to the end of the list.
 
    Assumes the input list index_list is already terminated with a -1
-   and that the size of this array is MAX_BEST_COUNT.
-
-   If the list is already full, this will print an error message and
-   halt the program, since this indicates and internal coding error.
+   and that the array has room for one more element (they are all
+   allocated with one more element than there are indices).
 */
 void
 UTIL_appendIndexList( int *index_list, int index )
@@ -80,17 +69,7 @@ UTIL_appendIndexList( int *index_list, int index )
   /* Find end of list to insert. */
   i = 0;
   while ( index_list[i] >= 0 )
-    {
-	 if ( i >= (MAX_BEST_COUNT-2))
-	   {
-		fprintf( stderr, "%s %s",
-			    "Ran off end of index list.",
-			    "This seems to be some internal coding error.\n" );
-		exit( 1 );
-	   }
-
-	 i++;
-    }
+    i++;
 
   index_list[i] = index;
   index_list[i+1] = -1;
@@ -103,13 +82,8 @@ UTIL_printIndexList( FILE *file, int *index_list )
 {
   int i;
 
-  for ( i = 0; i < MAX_BEST_COUNT; i++ )
-    {
-	 if ( index_list[i] < 0 )
-	   return;
-	 
-	 fprintf( file, " %d", index_list[i] );
-    }
+  for ( i = 0; index_list[i] >= 0; i++ )
+    fprintf( file, " %d", index_list[i] );
   
 } /* UTIL_printIndexList */
 
@@ -124,8 +98,8 @@ UTIL_printIndexList( FILE *file, int *index_list )
   elsewhere.  The all_values is a 2D array of size NxM where N is the
   size of the belief list and M the size of the alpha list.  The best
   values is a 1D array of length N.  The best_alphas is a 2D array of
-  size NxP where P is a hard-coded limit on the list size arbitarily
-  set. It contains a list of pointers to the alphas in the list that
+  size NxP where P is one more than the size of the alpha list. It
+  contains a list of pointers to the alphas in the list that
   reach the maximal value (one list for each belief point).  This list
   is NULL terminated.
 */
@@ -171,14 +145,6 @@ UTIL_computeAlphaBeliefValues( AlphaList alpha_list,
 				  epsilon )) 
 	  {
 
-	    if ( best_count >= (MAX_BEST_COUNT - 1) )
-		 {
-		   fprintf( stderr, "%s %s",
-				  "Too many best vectors.",
-				  "Increase the MAX_BEST_COUNT variable in utils.h.\n" );
-		   exit( 1 );
-		 }
-	    
 	    best_alphas[b_num][best_count] = a_ptr;
 	    best_alphas[b_num][best_count+1] = NULL;
 	    best_count++;
@@ -207,11 +173,11 @@ UTIL_computeAlphaBeliefValues( AlphaList alpha_list,
 }  /* UTIL_computeAlphaBeliefValues */
 
 /**********************************************************************/
-/* alpha_best should be a list of lists (as a fixed sized arrays). A
+/* alpha_best should be a list of lists (as arrays). A
    list for each bel;ief point of pointers to AlphaList objects with a
    NULL terminating the list.
    
-   'unique' will be a list (as a fixed sized array) of indices
+   'unique' will be a list (as an array) of indices
    into the alpha list with a -1 terminating the list. This indicate
    which belief points is this vector the sole dominating one from the
    list. 
@@ -307,11 +273,7 @@ UTIL_reportBeliefMapping( FILE *file,
     fprintf( file, "Belief[%d]:\n", b_num );
     
     fprintf( file, "  Best Alpha Indices: " );
-    for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
-	 
-	 if ( alpha_best[b_num][i] == NULL )
-	   break;
-	 
+    for ( i = 0; alpha_best[b_num][i] != NULL; i++ ) {
 	 fprintf( file, "%d ", alpha_best[b_num][i]->id ) ;
     }
     if ( alpha_best[b_num][1] != NULL )
@@ -435,11 +397,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	 fprintf( file, "Belief[%d]:\n", b_num );
 
 	 fprintf( file, "  [%d] Best Alpha1 Indices: ", b_num );
-	 for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
-	   
-	   if ( alpha1_best[b_num][i] == NULL )
-		break;
-	   
+	 for ( i = 0; alpha1_best[b_num][i] != NULL; i++ ) {
 	   fprintf( file, "%d ", alpha1_best[b_num][i]->id ) ;
 	 }
 	 fprintf( file, "\n" );
@@ -448,11 +406,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 			BELIEF_FILE_DECIMAL_PRECISION, alpha1_best_values[b_num] );
 
 	 fprintf( file, "  [%d] Best Alpha2 Indices: ", b_num );
-	 for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
-	   
-	   if ( alpha2_best[b_num][i] == NULL )
-		break;
-	   
+	 for ( i = 0; alpha2_best[b_num][i] != NULL; i++ ) {
 	   fprintf( file, "%d ", alpha2_best[b_num][i]->id ) ;
 	 }
 	 fprintf( file, "\n" );
@@ -656,9 +610,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 								* sizeof( *alpha2_best ));
 
   for ( i = 0; i < sizeBeliefList( belief_list ); i++) {
-    alpha1_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha1_best[i] = (AlphaList *) XMALLOC( ( sizeAlphaList( alpha1_list ) + 1 )
 								    * sizeof( AlphaList ) );
-    alpha2_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha2_best[i] = (AlphaList *) XMALLOC( ( sizeAlphaList( alpha2_list ) + 1 )
 								    * sizeof( AlphaList ) );
   }
 
@@ -668,9 +622,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 							   * sizeof( *alpha1_non_uniquely_best));
 
   for ( i = 0; i < sizeAlphaList( alpha1_list ); i++) {
-    alpha1_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha1_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list ) + 1 )
 									  * sizeof( int ) );
-    alpha1_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha1_non_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list ) + 1 )
 										 * sizeof( int ) );
   }
 
@@ -680,9 +634,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 							   * sizeof( *alpha2_non_uniquely_best));
 
   for ( i = 0; i < sizeAlphaList( alpha2_list ); i++) {
-    alpha2_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha2_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list ) + 1 )
 									  * sizeof( int ) );
-    alpha2_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha2_non_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list ) + 1 )
 										 * sizeof( int ) );
   }
 
@@ -849,7 +803,7 @@ UTIL_mapBeliefList( char *belief_filename,
 								* sizeof( *alpha_best ));
 
   for ( i = 0; i < sizeBeliefList( belief_list ); i++) {
-    alpha_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha_best[i] = (AlphaList *) XMALLOC( ( sizeAlphaList( alpha_list ) + 1 )
 								    * sizeof( AlphaList ) );
   }
 
@@ -865,9 +819,9 @@ UTIL_mapBeliefList( char *belief_filename,
 	uniquely and non_uniquely the best for a given belief state.
   */
   for ( i = 0; i < sizeAlphaList( alpha_list ); i++) {
-    alpha_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list ) + 1 )
 									 * sizeof( int ) );
-    alpha_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha_non_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list ) + 1 )
 										* sizeof( int ) );
   }
 
diff --git a/src/utils.h b/src/utils.h
index 303eab1..86dc8bf 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -13,15 +13,6 @@
 #ifndef UTILS_H
 #define UTILS_H
 
-/* Rather than worry about dynamically alocating arrays for tracking
-   ties in best comparisons, we will make an assumption that there are
-   at most a fixed number of ties.  This variable sets this amount and
-   the code that uses it should check to see if this is exceeding and
-   spit out a warning/error message if it has so that the user can
-   increase this value for their problem.
-*/
-#define MAX_BEST_COUNT   100
-
 extern void UTIL_mapBeliefList( char *belief_filename,
 						  char *alpha_filename,
 						  double epsilon,
-- 
2.43.0


From 60126578964d7b9b0eb410e05ab3e967e8c38387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 37/51] fix: a program name that is too long left uninitialised
 memory to be copied

---
 src/command-line.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/command-line.c b/src/command-line.c
index b7fa27f..49baf12 100644
--- a/src/command-line.c
+++ b/src/command-line.c
@@ -40,6 +40,7 @@ CL_new( )
 
   cmd_line->exec_name =  (char *) XMALLOC( MAX_CMD_LINE_STRING_LEN
 								  * sizeof(char));
+  cmd_line->exec_name[0] = '\0';
 
   cmd_line->args_opt = AA_new( MAX_CMD_LINE_ARGS, 
 						 MAX_CMD_LINE_STRING_LEN );
-- 
2.43.0


From 823382ad61905626ffa348806dc72c1de22893b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 38/51] fix: default output prefix of a long model file name
 overflowed its buffer

---
 src/fg-params.c | 6 +++++-
 src/params.c    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fg-params.c b/src/fg-params.c
index f193da5..a0e9283 100644
--- a/src/fg-params.c
+++ b/src/fg-params.c
@@ -153,7 +153,11 @@ FGP_doPostParseActions( FiniteGridParams params ) {
 	 /* Null terminate at the period */
 	 tmp_str[idx] = '\0';
 
-	 sprintf( opts->prefix_str, "%s-%d", tmp_str, getPid() );
+	 /* Stick to the default if this would not fit. */
+	 if ( snprintf( opts->prefix_str, sizeof( opts->prefix_str ), 
+				 "%s-%d", tmp_str, getPid() ) 
+		 >= sizeof( opts->prefix_str ))
+	   strcpy( opts->prefix_str, POMDP_FG_OPTS_OPT_O_DEFAULT );
 	 
     } /* if we can override the default */
 
diff --git a/src/params.c b/src/params.c
index 389b460..88a51f9 100644
--- a/src/params.c
+++ b/src/params.c
@@ -273,7 +273,11 @@ doPostOptionParseActions( PomdpSolveParams params ) {
 	 /* Null terminate at the period */
 	 tmp_str[idx] = '\0';
 
-	 sprintf( opts->prefix_str, "%s-%d", tmp_str, getPid() );
+	 /* Stick to the default if this would not fit. */
+	 if ( snprintf( opts->prefix_str, sizeof( opts->prefix_str ), 
+				 "%s-%d", tmp_str, getPid() ) 
+		 >= sizeof( opts->prefix_str ))
+	   strcpy( opts->prefix_str, POMDP_SOLVE_OPTS_OPT_O_DEFAULT );
 	 
     } /* if we can override the default */
 
-- 
2.43.0


From d933bee19585f26988eac8d1699efa0d9ccb4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 39/51] fix: default output prefix was cut at a period in a
 directory name

---
 src/fg-params.c | 6 +++---
 src/params.c    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fg-params.c b/src/fg-params.c
index a0e9283..3b75818 100644
--- a/src/fg-params.c
+++ b/src/fg-params.c
@@ -143,12 +143,12 @@ FGP_doPostParseActions( FiniteGridParams params ) {
     idx = strlen( tmp_str );  
 
     /* Start at the end and move left until we see the first
-	  "period". */
-    while (( idx > 0 ) && ( tmp_str[idx] != '.'))
+	  "period". Periods in the names of directories do not count. */
+    while (( idx > 0 ) && ( tmp_str[idx] != '.') && ( tmp_str[idx] != '/'))
 	 idx--;
 
     /* Only override if we found a period in param filename */
-    if ( idx > 0 ) {
+    if (( idx > 0 ) && ( tmp_str[idx] == '.')) {
 
 	 /* Null terminate at the period */
 	 tmp_str[idx] = '\0';
diff --git a/src/params.c b/src/params.c
index 88a51f9..2830d0f 100644
--- a/src/params.c
+++ b/src/params.c
@@ -263,12 +263,12 @@ doPostOptionParseActions( PomdpSolveParams params ) {
     idx = strlen( tmp_str );  
 
     /* Start at the end and move left until we see the first
-	  "period". */
-    while (( idx > 0 ) && ( tmp_str[idx] != '.'))
+	  "period". Periods in the names of directories do not count. */
+    while (( idx > 0 ) && ( tmp_str[idx] != '.') && ( tmp_str[idx] != '/'))
 	 idx--;
 
     /* Only override if we found a period in param filename */
-    if ( idx > 0 ) {
+    if (( idx > 0 ) && ( tmp_str[idx] == '.')) {
 
 	 /* Null terminate at the period */
 	 tmp_str[idx] = '\0';
-- 
2.43.0


From df06e9fb68bd8765cd26418cba991376cebc0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 40/51] fix: map_beliefs emptied an existing result file when
 its input could not be read

---
 src/utils.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 85951c4..857a91e 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -764,23 +764,23 @@ UTIL_mapBeliefList( char *belief_filename,
   int **alpha_uniquely_best;
   int **alpha_non_uniquely_best;
 
-  if ((file = fopen( map_filename , "w")) == NULL) {
-    fprintf(gStdErrFile, 
-             "** Error: The mapping file: %s cannot be opened.\n",
-		  map_filename);
-    return;
-  }
-  
   belief_list = readBeliefList( belief_filename, 0 );
   if ( belief_list == NULL ) {
-    fclose( file );
     return;
   }
 
   alpha_list = readAlphaList( alpha_filename, 0 );
   if ( alpha_list == NULL ) {
     destroyBeliefList( belief_list );
-    fclose( file );
+    return;
+  }
+
+  /* Not opened before the files are read, so that an existing file is
+	not lost if they cannot be. */
+  if ((file = fopen( map_filename , "w")) == NULL) {
+    fprintf(gStdErrFile, 
+             "** Error: The mapping file: %s cannot be opened.\n",
+		  map_filename);
     return;
   }
   
-- 
2.43.0


From 500938c6fecce0a3b9aec0cb1885b3d6a67cc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 41/51] fix: result files of pomdp-tools that could not be
 written were not reported

---
 src/utils.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/utils.c b/src/utils.c
index 857a91e..4f10a1f 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -34,6 +34,24 @@
 
 double gUtilEpsilon = 1.0e-9;
 
+/**********************************************************************/
+/*
+  Closes a file results were written to.  Buffered data may only fail to
+  get written now (e.g., disk full).
+*/
+static void
+UTIL_closeResultFile( FILE *file, char *filename )
+{
+  int failed = ferror( file );
+
+  if (( fclose( file ) != 0 ) || failed ) {
+    fprintf(gStdErrFile, 
+		  "** Error: The output file: %s cannot be written.\n",
+		  filename);
+    exit( -1 );
+  }
+}  /* UTIL_closeResultFile */
+
 /**********************************************************************/
 /* Simple helper routine for dealing with a list of non-negative integers
    implemented as an array with a -1 sentinel terminator.
@@ -736,6 +754,8 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
   XFREE( alpha2_uniquely_best );
   XFREE( alpha2_non_uniquely_best );
 
+  UTIL_closeResultFile( file, out_filename );
+
 } /* UTIL_fooNeedsAName */
 
 
@@ -874,6 +894,8 @@ UTIL_mapBeliefList( char *belief_filename,
   destroyBeliefList( belief_list );
   destroyAlphaList( alpha_list );
 
+  UTIL_closeResultFile( file, map_filename );
+
 }  /* UTIL_mapBeliefList */
 
 /**********************************************************************/
@@ -1339,6 +1361,8 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
   destroyAlphaList( alpha1_list );
   destroyAlphaList( alpha2_list );
 
+  UTIL_closeResultFile( file, out_filename );
+
 }  /* UTIL_compareAlphaFiles */
 
 /**********************************************************************/
-- 
2.43.0


From 4d0ee3e33f86bacb038aef0ec244db583e9f58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 42/51] fix: pomdp-tools ended with a success status when it
 could not read its input or write its result

---
 src/utils.c | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 4f10a1f..53c10cd 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -573,7 +573,7 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha1 file: %s cannot be read.\n",
 		  alpha1_filename);
-    return;
+    exit( -1 );
   }
 
   alpha2_list = readAlphaList( alpha2_filename, 0 );
@@ -581,7 +581,7 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha2 file: %s cannot be read.\n",
 		  alpha2_filename);
-    return;
+    exit( -1 );
   }
 
   belief_list = readBeliefList( belief_filename, 0 );
@@ -589,14 +589,14 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The belief file: %s cannot be read.\n",
 		  belief_filename);
-    return;
+    exit( -1 );
   }
 
   if ((file = fopen( out_filename , "w")) == NULL) {
     fprintf(gStdErrFile, 
 		  "** Error: The output file: %s cannot be opened.\n",
 		  out_filename);
-    return;
+    exit( -1 );
   }
 
 
@@ -786,13 +786,18 @@ UTIL_mapBeliefList( char *belief_filename,
 
   belief_list = readBeliefList( belief_filename, 0 );
   if ( belief_list == NULL ) {
-    return;
+    fprintf(gStdErrFile, 
+		  "** Error: The belief file: %s cannot be read.\n",
+		  belief_filename);
+    exit( -1 );
   }
 
   alpha_list = readAlphaList( alpha_filename, 0 );
   if ( alpha_list == NULL ) {
-    destroyBeliefList( belief_list );
-    return;
+    fprintf(gStdErrFile, 
+		  "** Error: The alpha file: %s cannot be read.\n",
+		  alpha_filename);
+    exit( -1 );
   }
 
   /* Not opened before the files are read, so that an existing file is
@@ -801,7 +806,7 @@ UTIL_mapBeliefList( char *belief_filename,
     fprintf(gStdErrFile, 
              "** Error: The mapping file: %s cannot be opened.\n",
 		  map_filename);
-    return;
+    exit( -1 );
   }
   
   /* Print the file preamble */
@@ -914,12 +919,13 @@ UTIL_sortAlphaFile( char *in_alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha file: %s cannot be read.\n",
 		  in_alpha_filename);
-    return;
+    exit( -1 );
   }
 
   sortAlphaList( in_alpha_list );
 
-  saveAlphaList( in_alpha_list, out_alpha_filename );
+  if ( saveAlphaList( in_alpha_list, out_alpha_filename ) == FALSE )
+    exit( -1 );
 
   destroyAlphaList( in_alpha_list );
 
@@ -942,7 +948,7 @@ UTIL_purgeAlphaFile( char *in_alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha file: %s cannot be read.\n",
 		  in_alpha_filename);
-    return;
+    exit( -1 );
   }
 
   fprintf( param->report_file, 
@@ -959,7 +965,8 @@ UTIL_purgeAlphaFile( char *in_alpha_filename,
 		 "Ouput Alpha Count: %d\n",
             sizeAlphaList(in_alpha_list)  );
 
-  saveAlphaList( in_alpha_list, out_alpha_filename );
+  if ( saveAlphaList( in_alpha_list, out_alpha_filename ) == FALSE )
+    exit( -1 );
 
   destroyAlphaList( in_alpha_list );
 
@@ -1133,7 +1140,7 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha1 file: %s cannot be read.\n",
 		  alpha_filename);
-    return;
+    exit( -1 );
   }
 
   prev_alpha_list = readAlphaList( prev_alpha_filename, 0 );
@@ -1141,7 +1148,7 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha2 file: %s cannot be read.\n",
 		  prev_alpha_filename);
-    return;
+    exit( -1 );
   }
 
   /* Don't run sanity checks after reading, since here we know we may
@@ -1153,19 +1160,19 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The pg1 file: %s cannot be read.\n",
 		  pg_filename);
-    return;
+    exit( -1 );
   }
 
   if ( sizeAlphaList( alpha_list ) != pg->num_nodes ) {
     fprintf(gStdErrFile, 
 		  "** Error: The pg1 and alpha1 files are not compatible.\n");
-    return;
+    exit( -1 );
   }
 
   if ( gNumObservations != pg->num_obs ) {
     fprintf(gStdErrFile, 
 		  "** Error: The pg1 file is not compatible with POMDP file.\n");
-    return;
+    exit( -1 );
   }
 
   /* Note the reversal of the list order in this call.  Though the
@@ -1255,7 +1262,7 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha1 file: %s cannot be read.\n",
 		  alpha1_filename);
-    return;
+    exit( -1 );
   }
 
   alpha2_list = readAlphaList( alpha2_filename, 0 );
@@ -1263,14 +1270,14 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha2 file: %s cannot be read.\n",
 		  alpha2_filename);
-    return;
+    exit( -1 );
   }
 
   if ((file = fopen( out_filename , "w")) == NULL) {
     fprintf(gStdErrFile, 
 		  "** Error: The output file: %s cannot be opened.\n",
 		  out_filename);
-    return;
+    exit( -1 );
   }
 
   /* We will map one vector at a time in alpha1, so these arrays to
-- 
2.43.0


From ec7091e74a4bdf92e7c2e5700bba95cf160e04b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 43/51] fix: a read error in a vector or belief file was taken
 for the end of the file

---
 src/alpha.c  | 10 ++++++++++
 src/belief.c |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/alpha.c b/src/alpha.c
index abfb737..214bde8 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1160,6 +1160,16 @@ readAlphaList( char *filename, int max_alphas )
      appendAlphaList( list, alpha, a );
    }  /* while */
    
+   /* A read error looks like the end of the file. */
+   if ( ferror( file )) {
+     fprintf(gStdErrFile, 
+             "** Error: Problem reading the alpha vector file: %s.\n",
+             filename);
+     destroyAlphaList( list );
+     fclose( file );
+     return ( NULL );
+   }
+
    fclose( file );
    
    return ( list );
diff --git a/src/belief.c b/src/belief.c
index 1dd7328..c43efbc 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -250,6 +250,15 @@ readBeliefList( char *filename, int max )
    
  RBL_DONE:
 
+   /* A read error looks like the end of the file. */
+   if ( ferror( file )) {
+     fprintf(gStdErrFile, 
+		   "** Error: Problem reading the belief list file: %s.\n",
+		   filename);
+     fclose( file );
+     return ( NULL );
+   }
+
    fclose( file );
    
    return ( list );
-- 
2.43.0


From f1b96af0c52ab2f5a132c6dd993d13c20ee1600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 44/51] fix: a read error in a policy graph or configuration
 file was taken for the end of the file

---
 src/config-file.c | 4 ++++
 src/pg.c          | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/config-file.c b/src/config-file.c
index 35a2009..b76e69e 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -302,6 +302,10 @@ CF_read( char* filename )
 
   ret_val = CF_fscanf( file );
 
+  /* A read error looks like the end of the file. */
+  if ( ferror( file ))
+    ret_val->error_count += 1;
+
   fclose( file );
 
   return ret_val;
diff --git a/src/pg.c b/src/pg.c
index 269ea1e..42bfbea 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -260,6 +260,13 @@ LPG_read( char *filename, int verify ) {
   
   lpg = LPG_scanf( file, verify );
   
+  /* A read error looks like the end of the file. */
+  if (( lpg != NULL ) && ferror( file )) {
+    LPG_destroy( lpg );
+    lpg = NULL;
+    Warning( "Problem reading the policy graph file." );
+  }
+
   fclose( file );
 
   return lpg;
-- 
2.43.0


From 887049cd88b1a697d487a7d34b8457e635648143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 45/51] fix: pomdp-solve reported success when its solution
 could not be written

---
 src/belief.c      | 13 +++++++++----
 src/belief.h      |  2 +-
 src/finite-grid.c |  8 +++++---
 src/main.c        |  6 +++++-
 src/params.c      |  1 +
 src/params.h      |  3 +++
 src/pg.c          | 23 +++++++++++++++++------
 src/pg.h          |  4 ++--
 src/pomdp-solve.c | 27 ++++++++++++++++++++-------
 src/utils.c       |  3 ++-
 10 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/src/belief.c b/src/belief.c
index c43efbc..ada9944 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -134,13 +134,14 @@ writeBeliefList( FILE *file, BeliefList belief_list )
    
 }  /* writeBeliefList */
 /**********************************************************************/
-void 
+int 
 saveBeliefList( BeliefList list, char *filename ) 
 {
   /*
     Write the belief list out to a file in the format that
     readBeliefList() will read them in.  It is not a very pretty format,
-    but makes reading it in trivial.
+    but makes reading it in trivial.  Returns TRUE if the file was
+    completely written and FALSE otherwise.
   */
    FILE *file;
    int failed;
@@ -149,17 +150,21 @@ saveBeliefList( BeliefList list, char *filename )
      fprintf(gStdErrFile, 
              "** Error: The belief list file: %s cannot be opened.\n",
              filename);
-     return;
+     return ( FALSE );
    }
    
    writeBeliefList( file, list );
    
    /* Buffered data may only fail to get written now (e.g., disk full). */
    failed = ferror( file );
-   if (( fclose( file ) != 0 ) || failed )
+   if (( fclose( file ) != 0 ) || failed ) {
      fprintf(gStdErrFile, 
              "** Error: The belief list file: %s cannot be written.\n",
              filename);
+     return ( FALSE );
+   }
+
+   return ( TRUE );
 }  /* saveBeliefList */
 /**********************************************************************/
 void 
diff --git a/src/belief.h b/src/belief.h
index b7ad4e1..37eec89 100644
--- a/src/belief.h
+++ b/src/belief.h
@@ -51,7 +51,7 @@ extern void destroyBelief( double *b );
 extern int sameBelief( double *b1, double *b2, double epsilon );
 extern BeliefList readBeliefList( char *filename, int max_beliefs ); 
 extern void writeBeliefList( FILE *file, BeliefList belief_list );
-extern void saveBeliefList( BeliefList list, char *filename );
+extern int saveBeliefList( BeliefList list, char *filename );
 extern void showBeliefList( BeliefList list );
 extern BeliefList readBeliefList( char *filename, int max );
 extern BeliefList newBeliefNode( double *b );
diff --git a/src/finite-grid.c b/src/finite-grid.c
index 7b739e7..8190ad1 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -388,9 +388,11 @@ void initFiniteGrid( PomdpSolveParams param )
   if ( param->opts->finite_grid_save ) {
     
     sprintf( belief_filename, "%s.belief", param->opts->prefix_str );
-    saveBeliefList( gFiniteGrid, belief_filename );
-    fprintf( param->report_file, 
-	     "    Grid saved to %s.\n", belief_filename );
+    if ( saveBeliefList( gFiniteGrid, belief_filename ) == TRUE )
+      fprintf( param->report_file, 
+	       "    Grid saved to %s.\n", belief_filename );
+    else
+      param->write_failed = TRUE;
     
   } /* if saving belief list */
 
diff --git a/src/main.c b/src/main.c
index 0eb81c8..4a05be1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -48,6 +48,7 @@
 int 
 main( int argc, char **argv ) {
   PomdpSolveParams param;
+  int status;
   
   /* Handles configuration file and command line options. */
   param = parseCmdLineAndCfgFile( argc, argv );
@@ -62,12 +63,15 @@ main( int argc, char **argv ) {
   /* And away we go... */
   solvePomdp( param );
 
+  /* The solution is of no use when it did not get written. */
+  status = ( param->write_failed == TRUE ) ? 1 : 0;
+
   /* Let's make all nice afterwards for all other things. Note that
      this deallocates the space for 'param' and its 'opts'
      component. */
   cleanUpPomdpSolve( param );
 
-  return( 0 );
+  return( status );
 
 } /* main */
 /**********************************************************************/
diff --git a/src/params.c b/src/params.c
index 2830d0f..7cc4c04 100644
--- a/src/params.c
+++ b/src/params.c
@@ -71,6 +71,7 @@ newPomdpSolveParams(  )
   params->stat_summary = FALSE;
   params->report_filename[0] = NULL_CHAR;
   params->report_file = stdout;
+  params->write_failed = FALSE;
   params->param_filename[0] = NULL_CHAR;
   params->override_discount = -1.0;
   params->horizon = DEFAULT_HORIZON;
diff --git a/src/params.h b/src/params.h
index 68c089a..4334c08 100644
--- a/src/params.h
+++ b/src/params.h
@@ -126,6 +126,9 @@ struct PomdpSolveParamStruct {
      line. */
   FILE *report_file;
 
+  /* Set when some result file could not be completely written. */
+  int write_failed;
+
   /* The name of the POMDP file we will use. */
   char param_filename[MAX_FILENAME_LENGTH];
 
diff --git a/src/pg.c b/src/pg.c
index 42bfbea..772c5a5 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -552,9 +552,12 @@ PG_display( PG pg  )
 } /* PG_display */
 
 /**********************************************************************/
-void 
+int 
 PG_write( PG pg, char *filename  ) 
 {
+  /*
+    Returns TRUE if the file was completely written and FALSE otherwise.
+  */
   FILE *file;
   int failed;
 
@@ -563,7 +566,7 @@ PG_write( PG pg, char *filename  )
   if (( file = fopen( filename , "w" )) == NULL) 
     {
 	 Warning( "Cannot open policy graph file for writing." );
-	 return;
+	 return ( FALSE );
     }
   
   PG_printf( pg, file );
@@ -571,7 +574,12 @@ PG_write( PG pg, char *filename  )
   /* Buffered data may only fail to get written now (e.g., disk full). */
   failed = ferror( file );
   if (( fclose( file ) != 0 ) || failed )
-    Warning( "Cannot write policy graph file." );
+    {
+	 Warning( "Cannot write policy graph file." );
+	 return ( FALSE );
+    }
+
+  return ( TRUE );
 }  /* PG_write */
 
 /**********************************************************************/
@@ -699,21 +707,24 @@ APG_displayPolicyGraph( FILE *file, AlphaList list )
 }  /* displayPolicyGraph */
 
 /**********************************************************************/
-void 
+int 
 APG_writePolicyGraph( AlphaList list, char *filename ) 
 {
   /*
     Displays the policy graph of a set of vectors to the filename
-    specified. 
+    specified.  Returns TRUE if the file was completely written and
+    FALSE otherwise.
   */
   PG pg;
+  int written;
 
   pg = PG_ConstructorFromAlphaList( list );
 
-  PG_write( pg, filename );
+  written = PG_write( pg, filename );
 
   PG_Destructor( pg );
 
+  return ( written );
 }  /* writePolicyGraph */
 
 /**********************************************************************/
diff --git a/src/pg.h b/src/pg.h
index 602f586..0581ccb 100644
--- a/src/pg.h
+++ b/src/pg.h
@@ -84,14 +84,14 @@ extern void PG_rand( PG pg );
 extern void PG_printf( PG pg, FILE *file  );
 extern PG PG_scanf( FILE *file, int verify );
 extern void PG_display( PG pg  );
-extern void PG_write( PG pg, char *filename  );
+extern int PG_write( PG pg, char *filename  );
 extern PG PG_read( char *filename, int verify  );
 
 extern PG PG_convertLPGToPG( LinkedPG old_pg );
 extern void PG_relink( PG pg, int* link_map, int max_idx );
 
 extern void APG_displayPolicyGraph( FILE *file, AlphaList list );
-extern void APG_writePolicyGraph( AlphaList list, char *filename );
+extern int APG_writePolicyGraph( AlphaList list, char *filename );
 extern void APG_showPolicyGraph( AlphaList list );
 
 extern void LPG_destroyNode( LinkedPG pg );
diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 4088568..6af269e 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -271,7 +271,11 @@ endPomdpSolve( PomdpSolveParams param,
   else
     saved = saveAlphaList( solution, param->alpha_filename );
 
-  APG_writePolicyGraph( solution, param->pg_filename );
+  if ( saved == FALSE )
+    param->write_failed = TRUE;
+
+  if ( APG_writePolicyGraph( solution, param->pg_filename ) == FALSE )
+    param->write_failed = TRUE;
   
   if ( gVerbose[V_POMDP_SOLVE] ) {
     fprintf( param->report_file, 
@@ -282,7 +286,9 @@ endPomdpSolve( PomdpSolveParams param,
     fprintf(param->report_file, 
             "++++++++++++++++++++++++++++++++++++++++\n");
     fprintf(param->report_file,
-            "Solution found.  See file:\n\t%s\n\t%s\n",
+            "Solution found.  %s:\n\t%s\n\t%s\n",
+            ( param->write_failed == FALSE ) ? "See file"
+            : "Some file could not be written",
             param->alpha_filename, param->pg_filename );
     fprintf(param->report_file,
             "++++++++++++++++++++++++++++++++++++++++\n");
@@ -333,6 +339,7 @@ handleSaveAll( AlphaList list, PomdpSolveParams param )
   static char *alpha_filename_null_term, *pf_filename_null_term;
   static char num_str[10];
   AlphaList scaled_list;
+  int saved;
 
   /* A NULL list means we should initialize the names we will be using
      for saving each epoch's solution. */
@@ -365,20 +372,24 @@ handleSaveAll( AlphaList list, PomdpSolveParams param )
   
   if ( valuesRequireScaling() ) {
     scaled_list = makeScaledAlphaList( list, param->update_count );
-    saveAlphaList( scaled_list, alpha_filename );
+    saved = saveAlphaList( scaled_list, alpha_filename );
     destroyAlphaList( scaled_list );
   } /* if values required scaling */
 
   /* Otherwise, no scaling required so just write out the list. */
   else
-    saveAlphaList( list, alpha_filename );
+    saved = saveAlphaList( list, alpha_filename );
+
+  if ( saved == FALSE )
+    param->write_failed = TRUE;
 
   /* If the ZLZ speedup is being used, then the policy raph likely
      points to vectors not of the previous DP iteration, but of the
      last ZLZ update. Thus, we do not write out the policy graphs
      when this option is in effect. */
-  if ( param->vi_variation != ZlzSpeedup )
-    APG_writePolicyGraph( list, pg_filename );
+  if (( param->vi_variation != ZlzSpeedup )
+      && ( APG_writePolicyGraph( list, pg_filename ) == FALSE ))
+    param->write_failed = TRUE;
   
   /* Truncate the filenames to make them their original
      name. This just restores the null-terminator to the
@@ -1048,7 +1059,9 @@ solvePomdp( PomdpSolveParams param )
     if (( param->cur_epoch > 0 )
 	   && ( param->opts->save_penultimate == Boolean_true ))
 	 {
-	   saveAlphaList( next_alpha_list, param->penultimate_filename ); 
+	   if ( saveAlphaList( next_alpha_list, 
+			       param->penultimate_filename ) == FALSE )
+	     param->write_failed = TRUE;
 	 }
 
     /* Some variations of value iteration need to adjust things at the
diff --git a/src/utils.c b/src/utils.c
index 53c10cd..fe73cc5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1184,7 +1184,8 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
 
   PG_relink( pg, alpha_map, sizeAlphaList( prev_alpha_list )-1 );
 
-  PG_write( pg, out_pg_filename );
+  if ( PG_write( pg, out_pg_filename ) == FALSE )
+    exit( -1 );
 
   /* clean up time */
   destroyAlphaList( alpha_list );
-- 
2.43.0


From 6045bd839eaf2461e34eb4ca8e2f7449aebb0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 46/51] fix: the eta file of a linear program with many rows
 overflowed

---
 src/lp-solve/solve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index ad36d29..107cf80 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -174,7 +174,7 @@ static void condensecol(lprec *lp,
   
   elnr = lp->eta_col_end[lp->eta_size];
 
-  if(elnr + lp->rows + 2 > lp->eta_alloc) /* maximum local growth of Eta */
+  while(elnr + lp->rows + 2 > lp->eta_alloc) /* maximum local growth of Eta */
     resize_eta(lp);
 
   for(i = 0; i <= lp->rows; i++)
@@ -259,6 +259,9 @@ static void minoriteration(lprec *lp,
   wk = elnr;
   lp->eta_size++;
 
+  while(elnr + lp->rows + 2 > lp->eta_alloc) /* maximum local growth of Eta */
+    resize_eta(lp);
+
   if(Extrad != 0)
     {
       lp->eta_row_nr[elnr] = 0;
-- 
2.43.0


From 449b1cae7694452c1246df1d478b466004cd438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 47/51] fix: PG_Destructor() left two of the arrays behind

---
 src/pg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pg.c b/src/pg.c
index 772c5a5..e8d3187 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -454,6 +454,8 @@ PG_Destructor( PG pg )
     XFREE( pg->next[n] );
   XFREE( pg->next );
   XFREE( pg->action );
+  XFREE( pg->id );
+  XFREE( pg->marked );
   XFREE( pg );
 
 }  /* PG_Destructor */
-- 
2.43.0


From 1822bef95b22e3f5859107b340cfdc6fc0058fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 48/51] fix: epsilonPrune() left its copy of the list behind

---
 src/parsimonious.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsimonious.c b/src/parsimonious.c
index 8aa950c..052537a 100644
--- a/src/parsimonious.c
+++ b/src/parsimonious.c
@@ -293,6 +293,8 @@ epsilonPrune( AlphaList list,
 
   param->epsilon_diff_of_last_prune = max_diff;
 
+  destroyAlphaList( orig_list );
+
   return( num_pruned );
 
 }  /* epsilonPrune */
-- 
2.43.0


From 4523bceaa791fbae29f002492b48a9d65141c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 49/51] fix: the generalized cross sum left the header of its
 list behind

---
 src/inc-prune.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index 423cca8..c128962 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -391,13 +391,13 @@ generalizedIpCrossSum( AlphaList A,
       destroyAlphaList( compare_list );
 
     if ( shouldTerminateEarly( new_list, param ))
-	 {
-	   destroyAlphaList( search_list );
-	   break;
-	 }
+      break;
 
   } /* while orig_list->length > 0 */
 
+  /* What is not used goes together with the list header. */
+  destroyAlphaList( search_list );
+
   return( new_list );
 
 }  /* generalizedIpCrossSum */
-- 
2.43.0


From 65dc97ff80bd412010fa4f693ecb65720b1c5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 50/51] fix: ZLZ_improve() left its last copy of the value
 function behind

---
 src/zlz_speedup.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zlz_speedup.c b/src/zlz_speedup.c
index 21dc31e..11ee583 100644
--- a/src/zlz_speedup.c
+++ b/src/zlz_speedup.c
@@ -291,6 +291,8 @@ ZLZ_improve( AlphaList U_orig, double delta,
     
   } /* while not done */
 
+  destroyAlphaList( U_prev );
+
   dominationCheck( U_next );
 
   /* This special domination check prunes vectors from U_orig that are
-- 
2.43.0


From 666e66f9219c60127aa5629872b3fc2012687628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 51/51] fix: invert() left its arrays behind when inverting
 failed

---
 src/lp-solve/solve.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index 107cf80..e7a643e 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -514,6 +514,13 @@ void invert(lprec *lp)
      */
      if(row_nr > lp->rows) {
        gInversionProblem = TRUE;
+       free(rownum);
+       free(col);
+       free(row);
+       free(pcol);
+       free(frow);
+       free(fcol);
+       free(colnum);
        return;
      } /* if inversion problem */
 
-- 
2.43.0

