From 0ed062e90a38b851193cb20253947e737e88c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:04 +0000
Subject: [PATCH 01/15] fix: copyAlphaList copies each vector's own fields, not
 the list header's

---
 src/alpha.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 92f6708..4e4822f 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -900,17 +900,13 @@ copyAlphaList( AlphaList dest_list,
 
     /* Copy all the fields, though the burden on the being sane values
        lies in the orginal list. */
-    temp->id = src_list->id;
-    temp->obs = src_list->obs;
-    temp->prev_source = src_list->prev_source;
-    temp->next = src_list->next;
-    temp->first_source = src_list->first_source;
-    temp->second_source = src_list->second_source;
-    temp->mark = src_list->mark;
-    temp->hook = src_list->hook;
-    temp->length = src_list->length;
-    temp->head = src_list->head;
-    temp->tail = src_list->tail;
+    temp->id = list->id;
+    temp->obs = list->obs;
+    temp->prev_source = list->prev_source;
+    temp->first_source = list->first_source;
+    temp->second_source = list->second_source;
+    temp->mark = list->mark;
+    temp->hook = list->hook;
     
     temp->obs_source = NULL;
     temp->witness = NULL;
-- 
2.43.0


From 7b0951fb53e40ca4a13081742222e0137640bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:04 +0000
Subject: [PATCH 02/15] fix: readAlphaList rejects malformed and truncated
 files instead of looping on or accepting them

---
 src/alpha.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 4e4822f..9f0690e 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1090,7 +1090,7 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i;
+   int a, i, status;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1112,16 +1112,24 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     if ( fscanf( file, "%d", &a ) == EOF )
+     status = fscanf( file, "%d", &a );
+     if ( status == EOF )
        break;
      alpha = newAlpha();
      
-     for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( alpha[i] )) == EOF ) {
-         fprintf(gStdErrFile, 
-                 "** Error: Alpha vector file format incorrect.\n");
-         return ( NULL );
-       }
+     for ( i = 0; ( status == 1 ) && ( i < gNumStates ); i++ )
+       status = fscanf( file, "%lf", &( alpha[i] ));
+
+     /* Anything that is not a number, or the file ending within a
+        vector. */
+     if ( status != 1 ) {
+       fprintf(gStdErrFile, 
+               "** Error: Alpha vector file format incorrect.\n");
+       XFREE( alpha );
+       destroyAlphaList( list );
+       fclose( file );
+       return ( NULL );
+     }
      
      appendAlphaList( list, alpha, a );
    }  /* while */
-- 
2.43.0


From 0fa7d74fa5ca649aec2f02c03a21b0140e5f8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 03/15] fix: single-observation problems record each vector's
 choice, so the policy graph can be built

---
 src/cross-sum.c   | 21 +++++++++++++++++++++
 src/cross-sum.h   |  5 +++++
 src/enumeration.c |  2 +-
 src/inc-prune.c   |  2 +-
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/cross-sum.c b/src/cross-sum.c
index 6543176..e894390 100644
--- a/src/cross-sum.c
+++ b/src/cross-sum.c
@@ -121,6 +121,27 @@ setAlphaListSources( AlphaList new_node,
 }  /* setAlphaListSources */
 /**********************************************************************/
 AlphaList 
+singleObsCrossSum( AlphaList A ) 
+{
+  /*
+    With a single observation there is no cross-sum to take and the
+    vectors are those of the projection.  Returns a copy of the
+    projection set with the bookkeeping crossSum() would have done for
+    its vectors: each one records the projection vector it came from.
+  */
+  AlphaList V, a, v;
+
+  V = duplicateAlphaList( A );
+
+  for ( a = A->head, v = V->head; a != NULL; a = a->next, v = v->next ) {
+    v->obs_source = newObsSourceArray();
+    v->obs_source[0] = a;
+  }  /* for a, v */
+
+  return ( V );
+}  /* singleObsCrossSum */
+/**********************************************************************/
+AlphaList 
 crossSum( AlphaList A, AlphaList B, int save_obs_sources ) 
 {
   /*
diff --git a/src/cross-sum.h b/src/cross-sum.h
index 87b6730..c62ee9c 100644
--- a/src/cross-sum.h
+++ b/src/cross-sum.h
@@ -37,5 +37,10 @@
 extern AlphaList crossSum( AlphaList A, 
                            AlphaList B, 
                            int save_obs_sources );
+
+/* For problems with only one observation: returns a copy of the
+  projection set, where each vector records the projection vector it
+  came from, as crossSum() does. */
+extern AlphaList singleObsCrossSum( AlphaList A );
  
 #endif
diff --git a/src/enumeration.c b/src/enumeration.c
index 82d24f7..ce93503 100644
--- a/src/enumeration.c
+++ b/src/enumeration.c
@@ -61,7 +61,7 @@ enumerationByQ( AlphaList *projection )
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) {
     gNumVectorsEnum += projection[0]->length;
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleObsCrossSum( projection[0] ));
   }
 
    /* We do one less cross-sum than the number of observations. */
diff --git a/src/inc-prune.c b/src/inc-prune.c
index 5d61492..0c5b023 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -404,7 +404,7 @@ improveIncPrune( AlphaList *projection,
      corresponds to a completely unobservable problem, but for this
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) 
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleObsCrossSum( projection[0] ));
 
     /* We do one less cross-sum than the number of observations. */
    for( z = 1; z < gNumObservations; z++) {
-- 
2.43.0


From d95ab8857d7904382f92d60c64dab58030453d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 04/15] fix: Bellman error also compares old vectors to new
 ones for cost problems, whose rewards are negative

---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index c73f74d..50e690e 100644
--- a/src/common.c
+++ b/src/common.c
@@ -177,8 +177,10 @@ bellmanError( AlphaList prev_list,
   /* If there are negative rewards, then we must also compare each old
      vector to the new vectors. This also requires that there was no
      initial value function used (since it could have started with a
-     negative value (which we do not check for.) */
-  if (( ( gMinimumImmediateReward >= 0.0 )
+     negative value (which we do not check for.) Costs are negated when
+     they are accessed, so non-negative costs are negative rewards. */
+  if (( (( gMinimumImmediateReward >= 0.0 )
+         && ( gValueType != COST_value_type ))
         || ( gRequireNonNegativeRewards ))
       && ( param->initial_policy == NULL ))
     return ( max_diff );
-- 
2.43.0


From 50e761664d66f60902fc7676cbfc6a902eee6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 05/15] fix: single-observation stage vectors carry their set's
 action, not the old vector's

---
 src/cross-sum.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cross-sum.c b/src/cross-sum.c
index e894390..890ac6b 100644
--- a/src/cross-sum.c
+++ b/src/cross-sum.c
@@ -127,13 +127,15 @@ singleObsCrossSum( AlphaList A )
     With a single observation there is no cross-sum to take and the
     vectors are those of the projection.  Returns a copy of the
     projection set with the bookkeeping crossSum() would have done for
-    its vectors: each one records the projection vector it came from.
+    its vectors: each one has the set's action and records the
+    projection vector it came from.
   */
   AlphaList V, a, v;
 
   V = duplicateAlphaList( A );
 
   for ( a = A->head, v = V->head; a != NULL; a = a->next, v = v->next ) {
+    v->action = A->action;
     v->obs_source = newObsSourceArray();
     v->obs_source[0] = a;
   }  /* for a, v */
-- 
2.43.0


From b8769ccfdd91f5b96b0c30776b23d6c3e3fe0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 06/15] fix: zeroes of a reward matrix override earlier reward
 entries

---
 src/mdp/imm-reward.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdp/imm-reward.c b/src/mdp/imm-reward.c
index 23a8264..f3c5541 100644
--- a/src/mdp/imm-reward.c
+++ b/src/mdp/imm-reward.c
@@ -319,6 +319,12 @@ void irAddToDecisionTree(Imm_Reward_List node)
     break;
     
   case ir_matrix:
+    /* The matrix is sparse, but its zeroes override earlier values too. */
+    if( gProblemType == POMDP_problem_type )
+      dtAdd(node->action, node->cur_state, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
+    else
+      dtAdd(node->action, WILDCARD_SPEC, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
+
     m = node->rep.matrix;
     for (i=0; i < m->num_rows; i++) {
       for (j=0; j < m->row_length[i]; j++) {
-- 
2.43.0


From 9e1fc0341d2e7d2552c18c0d952cc5729bdc50f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 07/15] fix: reward lookup without any reward line is zero, and
 a released tree can be built anew

---
 src/mdp/decision-tree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index fc0b221..0edc8a5 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -353,6 +353,10 @@ void dtAdd(int action, int cur_state, int next_state, int obs, double val)
 double dtGet(int action, int cur_state, int next_state, int obs)
 {
   int vec[DT_TABLE_DEPTH];
+
+  /* nothing was specified at all */
+  if (NULL == gTree) return 0.0;
+
   vec[0] = action;
   vec[1] = cur_state;
   vec[2] = next_state;
@@ -365,6 +369,8 @@ void dtDeallocate(void)
 {
   dtDestroyNode(gTree);
   free(gTableSizes);
+  gTree = NULL;
+  gTableSizes = NULL;
 }
 
 void dtDebugPrint(const char* header)
-- 
2.43.0


From abd707aecc9d67d18983669403473f6e6118bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:29 +0000
Subject: [PATCH 08/15] fix: missing successors of a policy graph are written
 with their own marker and accepted when read back

---
 src/pg.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 1defd8d..28e869c 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -140,6 +140,11 @@ LPG_verify( LinkedPG orig_pg ) {
     for( z = 0; z < gNumObservations; z++ )
 	 {
 
+	   /* The special markers are not the ids of nodes. */
+	   if(( pg->neighbor[z] == INVALID_NODE )
+		 || ( pg->neighbor[z] == NO_INFO_NODE ))
+		continue;
+
 	   if( LPG_findNode( orig_pg, pg->neighbor[z] ) == NULL )
 		return( 0 );
 
@@ -486,12 +491,12 @@ PG_printf( PG pg, FILE *file  )
 	 fprintf( file, "%d %d  ", n, pg->action[n] );
 	 
 	 for( z = 0; z < pg->num_obs; z++ )
-	   if ( pg->next[n][z] != INVALID_NODE )
-		fprintf( file, "%d ", pg->next[n][z] );
-	   else if ( pg->next[n][z] == NO_INFO_NODE )
+	   if ( pg->next[n][z] == INVALID_NODE )
 		fprintf( file, "%s ", INVALID_NODE_STR );
-	   else
+	   else if ( pg->next[n][z] == NO_INFO_NODE )
 		fprintf( file, "%s ", NO_INFO_NODE_STR );
+	   else
+		fprintf( file, "%d ", pg->next[n][z] );
 	 
 	 fprintf( file, "\n");
     }  /* for n */
-- 
2.43.0


From 35b7d0ef383a29eff5d214c0225893a76a0bcb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:43 +0000
Subject: [PATCH 09/15] fix: reading a malformed or inconsistent policy graph
 ends with an error instead of looping or corrupting memory

---
 src/pg.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 28e869c..e24ff0b 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -137,6 +137,10 @@ LPG_verify( LinkedPG orig_pg ) {
     if(( pg->action < 0 ) || ( pg->action >= gNumActions ))
       return( 0 );
 
+    /* Each id can only be given to one node. */
+    if( LPG_findNode( orig_pg, pg->id ) != pg )
+      return( 0 );
+
     for( z = 0; z < gNumObservations; z++ )
 	 {
 
@@ -170,17 +174,21 @@ LPG_scanf( FILE *file, int verify ) {
   int *neighbor;
   int z;
   char int_str[MAX_MSG_LENGTH];
+  char extra;
   int count = 0;
+  int items;
 
   neighbor = (int *) XMALLOC( gNumObservations * sizeof( int ));
 
    while( 1 ) {
 
-     if( fscanf( file, "%d", &id ) == EOF )
+     if(( items = fscanf( file, "%d", &id )) == EOF )
        break;
 
-     if( fscanf( file, "%d", &action ) == EOF ) {
+     if(( items != 1 )
+        || ( fscanf( file, "%d", &action ) != 1 )) {
 	  LPG_destroy( lpg );
+	  XFREE( neighbor );
 	  Warning( "Not enough values in the policy graph file.");
 	  return( NULL );
      }
@@ -189,6 +197,7 @@ LPG_scanf( FILE *file, int verify ) {
 	    || ( action >= gNumActions ))
 	  {
 	    LPG_destroy( lpg );
+	    XFREE( neighbor );
 	    Warning( "Bad action number.\n" );
 	    return NULL;
 	  }
@@ -198,6 +207,7 @@ LPG_scanf( FILE *file, int verify ) {
 	  if ( fscanf( file, "%s", int_str) == EOF )
 	    {
 		 LPG_destroy( lpg );
+		 XFREE( neighbor );
 		 Warning("Not enough values in the policy graph file." );
 		 return NULL;
 	    }
@@ -206,8 +216,13 @@ LPG_scanf( FILE *file, int verify ) {
 	    neighbor[z] = INVALID_NODE;
 	  else if ( strcmp( int_str, NO_INFO_NODE_STR ) == 0 )
 	    neighbor[z] = NO_INFO_NODE;
-	  else
-	    neighbor[z] = atoi( int_str );
+	  else if ( sscanf( int_str, "%d%c", &(neighbor[z]), &extra ) != 1 )
+	    {
+		 LPG_destroy( lpg );
+		 XFREE( neighbor );
+		 Warning( "Bad node id in the policy graph file." );
+		 return NULL;
+	    }
 	}
 
 	lpg = LPG_addNode( lpg, id, action, neighbor );
@@ -587,6 +602,10 @@ PG PG_convertLPGToPG( LinkedPG old_pg ) {
   
   while( old_pg != NULL ) {
 
+    /* The arrays are indexed by the ids. */
+    Assert( old_pg->id >= 0 && old_pg->id < pg->num_nodes,
+            "Policy graph nodes are not numbered from zero." );
+
     pg->action[old_pg->id] = old_pg->action;
 
     for( z = 0; z < gNumObservations; z++ )
-- 
2.43.0


From ec68968d8c7a091468f6d8b94c94aa80dc039876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 10/15] fix: policy-graph evaluation skips missing successors
 and reports the node that attains the value

---
 src/pg-eval.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index a8a0f69..89327e6 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -247,6 +247,10 @@ PGE_setRowCoefs( PG pg, int state, int node, double *coef ) {
        overwriting them. */
     for( z = 0; z < gNumObservations; z++ ) {
 
+      /* No successor is needed for an observation that is impossible. */
+      if ( pg->next[node][z] < 0 )
+        continue;
+
       /* This converts from the 2D naming to the 1D naming
          for the current variable under consideration in this
          row. */
@@ -409,6 +413,7 @@ PGE_main( char *pg_filename ) {
   LinkedPG lpg;
   PG pg;
   int best_node;
+  double value;
 
   PgEvalContext pgec;
 
@@ -430,9 +435,9 @@ PGE_main( char *pg_filename ) {
 	 printf( "No initial belief state. Cannot give a single value.\n" );
     }
     else {
+	 value = PGEC_val( pgec, gInitialBelief, &best_node );
 	 printf( "Initial belief state value: %.2lf at node %d\n",
-		    PGEC_val( pgec, gInitialBelief, &best_node ),
-		    best_node );
+		    value, best_node );
 	 
     } /* if solution found */
   }
-- 
2.43.0


From 373288f896856e1259901c7a9f7bfa4ef19be8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 11/15] fix: a random seed given as a string is used instead of
 being replaced by the time of day

---
 src/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random.c b/src/random.c
index 1aeeb6a..bc957eb 100644
--- a/src/random.c
+++ b/src/random.c
@@ -121,6 +121,7 @@ setRandomSeedFromString ( char *str )
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
 
+  seeded = 1;
 }  /* setRandomSeedFromString  */
 /**********************************************************************/
 void 
-- 
2.43.0


From 285d45f7094ea0aec99a48314bb3849e8ae845f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 12/15] fix: an impossible observation no longer adds a
 not-a-number belief to the grid

---
 src/finite-grid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 960b76e..6243853 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -216,6 +216,10 @@ genAllBeliefStates( PomdpSolveParams param )
 
 	 } /* for state */
 
+	 /* An observation that no state can produce gives no belief. */
+	 if ( num_found == 0 )
+	   continue;
+
 	 /* Create a belief state uniform over this set of states */
 	 for( state = 0; state < gNumStates; state++ )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
-- 
2.43.0


From 16d0fd773f310f0e5b5fc3c09dd46a2a957d69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 13/15] fix: the finite grid never holds more beliefs than the
 requested maximum

---
 src/finite-grid.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 6243853..8a8434d 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -102,7 +102,7 @@ searchAndAddBeliefStates( BeliefList belief_list,
 
   cur_size = sizeBeliefList( belief_list );
 
-  while (( cur_size <= size_limit )
+  while (( cur_size < size_limit )
 	    && ( added_belief_state )) {
 
     walk_ptr = belief_list;
@@ -140,7 +140,8 @@ searchAndAddBeliefStates( BeliefList belief_list,
 		}
 
 		/* If it is not in list, add it and then recurse */
-		if ( findBeliefState( belief_list, gFGTempBelief, 
+		if (( cur_size < size_limit )
+		    && findBeliefState( belief_list, gFGTempBelief, 
 						  belief_epsilon ) == NULL ) {
 		  
 		  belief_list = appendBeliefList( belief_list, gFGTempBelief );
@@ -160,7 +161,7 @@ searchAndAddBeliefStates( BeliefList belief_list,
 	    thus not seeing the outer loops criteria for stopping when
 	    the size gets too big, Thus, we insert this short-circuit. 
 	 */
-	 if ( cur_size > size_limit )
+	 if ( cur_size >= size_limit )
 	   break;
 
 	 walk_ptr = walk_ptr->next;
@@ -225,7 +226,9 @@ genAllBeliefStates( PomdpSolveParams param )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
  
 	 /* Add the belief state to the list */
-	 if ( findBeliefState( belief_list, gFGTempBelief, 
+	 if (( sizeBeliefList( belief_list ) 
+		   < param->opts->finite_grid_points )
+		 && findBeliefState( belief_list, gFGTempBelief, 
 					   param->opts->fg_epsilon ) == NULL ) {
 
 	   belief_list = appendBeliefList( belief_list, gFGTempBelief );
-- 
2.43.0


From a8e78e9b1f982ebaac8da6d61a7b7fce1d1e34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:43 +0000
Subject: [PATCH 14/15] fix: reading a malformed belief file ends with an error
 instead of looping

---
 src/belief.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/belief.c b/src/belief.c
index 0b70959..281e061 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -187,6 +187,7 @@ readBeliefList( char *filename, int max )
    int i;
    double *b;
    BeliefList list = NULL;
+   int items_read;
    
    if ((file = fopen(filename , "r")) == NULL) {
      fprintf( gStdErrFile, 
@@ -208,14 +209,18 @@ readBeliefList( char *filename, int max )
      b = newBelief();
      
      for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( b[i] )) == EOF ) {
+       if (( items_read = fscanf( file, "%lf", &( b[i] ))) != 1 ) {
 
 	    /* We should run out of numbers to read when i == 0, since we
 		  need a number for each POMDP state in a belief.
 	    */
-	    if ( i > 0 ) {
+	    destroyBelief( b );
+
+	    if (( i > 0 ) || ( items_read != EOF )) {
 		 fprintf(gStdErrFile, 
 			    "** Error: Belief list file format incorrect.\n");
+		 destroyBeliefList( list );
+		 fclose( file );
 		 return ( NULL );
 	    }
 	    else 
@@ -224,6 +229,7 @@ readBeliefList( char *filename, int max )
        }
      
      list = appendBeliefList( list, b );
+     destroyBelief( b );
    }  /* while */
    
  RBL_DONE:
-- 
2.43.0


From 24fcbc234d8a27a181a786020fb4892e894013d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 15/15] fix: a long word in a policy graph file overran
 LPG_scanf's buffer

---
 src/pg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pg.c b/src/pg.c
index e24ff0b..b01c909 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -204,7 +204,7 @@ LPG_scanf( FILE *file, int verify ) {
 	
 	for( z = 0; z < gNumObservations; z++ ) {
 	 
-	  if ( fscanf( file, "%s", int_str) == EOF )
+	  if ( fscanf( file, "%1095s", int_str) == EOF )
 	    {
 		 LPG_destroy( lpg );
 		 XFREE( neighbor );
-- 
2.43.0

