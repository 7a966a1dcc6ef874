From 4d2070179d67159909172d457b0c9bfdb239afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 01/38] Verification hooks: allow overriding tuning constants
 (CAL_VERIF)

---
 src/calCacheTableTwo.c | 4 ++++
 src/calInt.h           | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/calCacheTableTwo.c b/src/calCacheTableTwo.c
index 8450793..fd659d9 100644
--- a/src/calCacheTableTwo.c
+++ b/src/calCacheTableTwo.c
@@ -43,6 +43,10 @@
 /*---------------------------------------------------------------------------*/
 /* cache table management related constants */
 #define CACHE_TABLE_DEFAULT_SIZE_INDEX 16
+#ifdef CAL_VERIF_CACHE_SIZE_INDEX
+#  undef CACHE_TABLE_DEFAULT_SIZE_INDEX
+#  define CACHE_TABLE_DEFAULT_SIZE_INDEX CAL_VERIF_CACHE_SIZE_INDEX
+#endif
 #define CACHE_TABLE_DEFAULT_CACHE_RATIO 4
 
 /*---------------------------------------------------------------------------*/
diff --git a/src/calInt.h b/src/calInt.h
index 0a88629..29e3643 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -245,6 +245,13 @@ extern unsigned long calPrimes[];
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
 
+/* Verification builds (never defined in normal ones): tuning constants from
+ * above may be replaced, such that code meant for very large BDDs can also be
+ * reached with small ones. */
+#ifdef CAL_VERIF
+#  include "calVerif.h"
+#endif
+
 
 /*---------------------------------------------------------------------------*/
 /* Type declarations                                                         */
-- 
2.43.0


From e2e958acb86a792d93d79def51879d005ebb7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 02/38] fix: pairwise operations process all levels from the
 topmost pair

---
 src/calBddOp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index cf6e2f2..b7c10be 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -685,14 +685,16 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
   Cal_Bdd_t F, G, result;
   int numPairs = numFunction/2;
   Cal_Bdd_t *resultArray = Cal_MemAlloc(Cal_Bdd_t, numPairs);
-  int i;
+  int i, pairIndex;
 
+  minIndex = bddManager->numVars;
   hashTableArray = bddManager->reqQue[0];
   for (i=0; i<numPairs; i++){
     F = bddArray[i<<1];
     G = bddArray[(i<<1)+1];
     if ((*calOpProc)(bddManager, F, G, &result) == 0){
-      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, minIndex);
+      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, pairIndex);
+      if (pairIndex < minIndex) minIndex = pairIndex;
       CalHashTableFindOrAdd(hashTableArray[minId], F, G, &result);
     }
     resultArray[i] = result;
-- 
2.43.0


From bdc473c946a9c922ab3a2953dff88abf3ccd4268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 03/38] fix: null-terminate the arrays returned by the pairwise
 operations

---
 src/calBddOp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index b7c10be..d84ccc9 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -267,7 +267,8 @@ Cal_BddPairwiseAnd(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpAnd);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2 + 1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
@@ -309,7 +310,8 @@ Cal_BddPairwiseOr(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpOr);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2 + 1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
@@ -343,7 +345,8 @@ Cal_BddPairwiseXor(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpXor);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2 + 1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
-- 
2.43.0


From 5af56ffb55e843cb9faa97fd3b434d5eadec48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 04/38] fix: results cached for temporary associations are not
 reused when their op codes wrap around

---
 src/calAssociation.c      | 19 +++++++++++++++++++
 src/calBddVarSubstitute.c |  2 +-
 src/calInt.h              |  2 ++
 src/calQuant.c            |  7 +++----
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index 5a196aa..faa37ff 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -398,6 +398,25 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
   }
 }
 
+/**Function********************************************************************
+  Returns the largest of "numOpCodes" consecutive op codes that have no
+  results for other associations in the cache table. When the op codes for
+  temporary associations are used up, the cache is flushed and they are reused.
+******************************************************************************/
+unsigned short
+CalTempAssociationNewOpCode(Cal_BddManager_t *bddManager, int numOpCodes)
+{
+  unsigned short opCode;
+
+  if ((int)bddManager->tempOpCode - numOpCodes < CAL_OP_TEMP_FIRST){
+    CalCacheTableTwoFlush(bddManager->cacheTable);
+    bddManager->tempOpCode = -1;
+  }
+  opCode = bddManager->tempOpCode;
+  bddManager->tempOpCode -= numOpCodes;
+  return opCode;
+}
+
 /**Function********************************************************************
   Checks the validity of association.
 ******************************************************************************/
diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 4dc1bba..71399cc 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -88,7 +88,7 @@ Cal_BddVarSubstitute(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalTempAssociationNewOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_VAR_SUBSTITUTE + assoc->id;
diff --git a/src/calInt.h b/src/calInt.h
index 29e3643..e3377d9 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -241,6 +241,7 @@ extern unsigned long calPrimes[];
 #define  CAL_OP_COMPOSE 0x6000
 #define  CAL_OP_SUBST 0x7000
 #define  CAL_OP_VAR_SUBSTITUTE 0x8000
+#define  CAL_OP_TEMP_FIRST 0xc000 /* lowest op code for temporary associations */
 
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
@@ -1510,6 +1511,7 @@ EXTERN Cal_Bdd_t CalBddIdentity(Cal_BddManager_t *bddManager, Cal_Bdd_t calBdd);
 EXTERN void CalHashTableApply(Cal_BddManager_t * bddManager, CalHashTable_t * hashTable, CalHashTable_t ** reqQueAtPipeDepth, CalOpProc_t calOpProc);
 EXTERN void CalHashTableReduce(Cal_BddManager_t * bddManager, CalHashTable_t * hashTable, CalHashTable_t * uniqueTableForId);
 EXTERN void CalAssociationListFree(Cal_BddManager_t * bddManager);
+EXTERN unsigned short CalTempAssociationNewOpCode(Cal_BddManager_t *bddManager, int numOpCodes);
 EXTERN void CalVarAssociationRepackUpdate(Cal_BddManager_t * bddManager, Cal_BddId_t id);
 EXTERN void CalCheckAssociationValidity(Cal_BddManager_t * bddManager);
 EXTERN void CalReorderAssociationFix(Cal_BddManager_t *bddManager);
diff --git a/src/calQuant.c b/src/calQuant.c
index e5ec784..9348193 100644
--- a/src/calQuant.c
+++ b/src/calQuant.c
@@ -106,7 +106,7 @@ Cal_BddExists(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     unsigned short opCode;
 
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalTempAssociationNewOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_QUANT + assoc->id;
@@ -145,8 +145,7 @@ Cal_BddRelProd(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd gUserBdd)
     unsigned short opCode;
 
     if (bddManager->currentAssociation->id == -1){
-      opCode = bddManager->tempOpCode--;
-      bddManager->tempOpCode--;
+      opCode = CalTempAssociationNewOpCode(bddManager, 2);
     }
     else {
       opCode = CAL_OP_REL_PROD + assoc->id;
@@ -184,7 +183,7 @@ Cal_BddForAll(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
 
     CalBddNot(f, f);
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalTempAssociationNewOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_QUANT + assoc->id;
-- 
2.43.0


From a11f41f3fd200843042a827c3d18c05a514f431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:43 +0000
Subject: [PATCH 05/38] fix: reducing by an empty care set, and Between(0,1),
 no longer use the null BDD

---
 src/calReduce.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calReduce.c b/src/calReduce.c
index 81d2420..966c3cb 100644
--- a/src/calReduce.c
+++ b/src/calReduce.c
@@ -232,6 +232,10 @@ BddReduceBF(
   int bddIndex;
   Cal_BddId_t bddId, minId;
 
+  if (CalBddIsBddZero(bddManager, c)){
+    /* Empty care set: every function agrees with f on it. */
+    return bddManager->bddOne;
+  }
 
   if ((*calOpProc)(bddManager, f, c, &result) == 1){
     return result;
-- 
2.43.0


From 4d9c244b1113c997f53941c11ad8ee5a8946649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 06/38] fix: repacking after window reordering only forwards
 association values that moved

---
 src/calAssociation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index faa37ff..bdf5e8a 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -385,7 +385,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
     nextAssoc = assoc->next;
     for (i=1; i <= bddManager->numVars; i++){
       if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-        CalBddForward(assoc->varAssociation[i]);
+        CalBddIsForwardedTo(assoc->varAssociation[i]);
       }
     }
   }
@@ -393,7 +393,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
   assoc = bddManager->tempAssociation;
   for (i=1; i <= bddManager->numVars; i++){
     if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-      CalBddForward(assoc->varAssociation[i]);
+      CalBddIsForwardedTo(assoc->varAssociation[i]);
     }
   }
 }
-- 
2.43.0


From c80f0328a6168a5915e620d78b0f1ad3101546af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 07/38] fix: the interaction matrix for reordering covers
 association values and nodes with saturated counters

---
 src/calInteract.c | 50 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/calInteract.c b/src/calInteract.c
index 6d7caa4..8c8d171 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -79,6 +79,7 @@
 static void ddSuppInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support);
 static void ddClearLocal(Cal_Bdd_t f);
 static void ddUpdateInteract(Cal_BddManager_t *bddManager, int *support);
+static void ddRootInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support);
 
 /**AutomaticEnd***************************************************************/
 
@@ -171,6 +172,7 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   int *support;
   long numBins;
   CalBddNode_t **bins, *bddNode, *nextBddNode;
+  CalAssociation_t *assoc;
 
   int n = bddManager->numVars;
 
@@ -228,6 +230,37 @@ CalInitInteract(Cal_BddManager_t *bddManager)
     }
   }
 
+  /* The BDDs bound in associations are kept alive without a user BDD. */
+  for (assoc = bddManager->associationList; assoc; assoc = assoc->next){
+    for (i = 1; i <= n; i++){
+      if (CalBddGetBddId(assoc->varAssociation[i]) != CAL_BDD_NULL_ID){
+        ddRootInteract(bddManager, assoc->varAssociation[i], support);
+      }
+    }
+  }
+  for (i = 1; i <= n; i++){
+    Cal_Bdd_t value = bddManager->tempAssociation->varAssociation[i];
+    if (CalBddGetBddId(value) != CAL_BDD_NULL_ID){
+      ddRootInteract(bddManager, value, support);
+    }
+  }
+
+  /* So are the nodes whose reference count has reached its maximum. */
+  for (k = 1; k <= n; k++){
+    bins = bddManager->uniqueTable[k]->bins;
+    numBins = bddManager->uniqueTable[k]->numBins;
+    for (i=0; i<numBins; i++){
+      for (bddNode = bins[i]; bddNode; bddNode = nextBddNode) {
+        nextBddNode = CalBddNodeGetNextBddNode(bddNode);
+        if (CalBddNodeIsRefCountMax(bddNode)){
+          Cal_Bdd_t internalBdd;
+          CalBddPutBddId(internalBdd, k);
+          CalBddPutBddNode(internalBdd, bddNode);
+          ddRootInteract(bddManager, internalBdd, support);
+        }
+      }
+    }
+  }
 
   Cal_MemFree(support);
   return(1);
@@ -308,3 +341,20 @@ ddUpdateInteract(Cal_BddManager_t *bddManager, int *support)
   }
   }
 } /* end of ddUpdateInteract */
+
+
+/**Function********************************************************************
+  Marks as interacting all pairs of variables in the support of f.
+******************************************************************************/
+static void
+ddRootInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support)
+{
+  int k;
+
+  for (k = 0; k < bddManager->numVars; k++) {
+    support[k] = 0;
+  }
+  ddSuppInteract(bddManager, f, support);
+  ddClearLocal(f);
+  ddUpdateInteract(bddManager, support);
+} /* end of ddRootInteract */
-- 
2.43.0


From 57129a05457a8de39e9a9e63fb5252a3a6239b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:11 +0000
Subject: [PATCH 08/38] fix: function profile of several BDDs counts each root
 as referenced from the top

---
 src/calBddSize.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/calBddSize.c b/src/calBddSize.c
index 18db633..452c5c6 100644
--- a/src/calBddSize.c
+++ b/src/calBddSize.c
@@ -272,6 +272,8 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
   Cal_BddIndex_t j;
   Cal_Bdd_t *f, *fArray;
   CalHashTable_t *h;
+  int highestRef = -1;
+  int *dataPtr;
 
   Cal_Bdd userBdd;
 
@@ -299,9 +301,13 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
     BddHighestRefStep(bddManager, *f, h);
   }
-  i = -1;
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
-    CalHashTableOneInsert(h, *f, (char *)&i);
+    if(CalHashTableOneLookup(h, *f, (char **)&dataPtr)){
+      *dataPtr = -1;
+    }
+    else{
+      CalHashTableOneInsert(h, *f, (char *)&highestRef);
+    }
   }
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
     BddDominatedStep(bddManager, *f, funcCounts, h);
-- 
2.43.0


From 73c94b3a46b90746903a258aa4998fda360ce024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:11 +0000
Subject: [PATCH 09/38] fix: Cal_BddIsCube answers 0 for the constant false
 instead of exiting

---
 src/cal.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cal.c b/src/cal.c
index eac49b8..b67182c 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -532,10 +532,7 @@ Cal_BddIsCube(
   Cal_Bdd_t f;
   f = CalBddGetInternalBdd(bddManager, fUserBdd);
   if (CalBddIsBddConst(f)){
-    if (CalBddIsBddZero(bddManager, f)){
-      CalBddFatalMessage("Cal_BddIsCube called with 0");
-    }
-    else return 1;
+    return !CalBddIsBddZero(bddManager, f);
   }
 
   CalBddGetThenBdd(f, f1);
-- 
2.43.0


From 9616b3b4418d26f8b505c0046f1e13da572aacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 10/38] fix: an association listing a variable twice protects
 only the BDD it is bound to

---
 src/calAssociation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index bdf5e8a..a2d293f 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -172,9 +172,9 @@ Cal_AssociationInit(Cal_BddManager bddManager,
   p->lastBddIndex = last;
   p->refCount = 1;
   /* Protect BDDs in the association. */
-  if(pairs){
-    for(i = 0; i < numAssociations; i++){
-      f = associationInfo[(i<<1)+1];
+  for(i = 1; i <= bddManager->numVars; i++){
+    f = varAssociation[i];
+    if(!CalBddIsBddNull(bddManager, f)){
       CalBddIcrRefCount(f);
     }
   }
-- 
2.43.0


From 3f5019869a7b9a4d5b14029324a9f12a5b548af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:47 +0000
Subject: [PATCH 11/38] fix: associations beyond the 4096th no longer share op
 codes with other operations in the cache

---
 src/calBddVarSubstitute.c | 2 +-
 src/calInt.h              | 1 +
 src/calQuant.c            | 8 ++++----
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 71399cc..7e44013 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -87,7 +87,7 @@ Cal_BddVarSubstitute(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     Cal_Bdd_t f = CalBddGetInternalBdd(bddManager, fUserBdd);
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
-    if (assoc->id == -1){
+    if (assoc->id == -1 || assoc->id >= CAL_OP_NUM_ASSOCIATIONS){
       opCode = CalTempAssociationNewOpCode(bddManager, 1);
     }
     else {
diff --git a/src/calInt.h b/src/calInt.h
index e3377d9..4149fa1 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -242,6 +242,7 @@ extern unsigned long calPrimes[];
 #define  CAL_OP_SUBST 0x7000
 #define  CAL_OP_VAR_SUBSTITUTE 0x8000
 #define  CAL_OP_TEMP_FIRST 0xc000 /* lowest op code for temporary associations */
+#define  CAL_OP_NUM_ASSOCIATIONS 0x1000 /* associations with op codes of their own */
 
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
diff --git a/src/calQuant.c b/src/calQuant.c
index 9348193..8d6ede6 100644
--- a/src/calQuant.c
+++ b/src/calQuant.c
@@ -105,7 +105,7 @@ Cal_BddExists(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
 
-    if (assoc->id == -1){
+    if (assoc->id == -1 || assoc->id >= CAL_OP_NUM_ASSOCIATIONS){
       opCode = CalTempAssociationNewOpCode(bddManager, 1);
     }
     else {
@@ -144,7 +144,7 @@ Cal_BddRelProd(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd gUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
 
-    if (bddManager->currentAssociation->id == -1){
+    if (assoc->id == -1 || assoc->id >= CAL_OP_NUM_ASSOCIATIONS){
       opCode = CalTempAssociationNewOpCode(bddManager, 2);
     }
     else {
@@ -182,7 +182,7 @@ Cal_BddForAll(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     unsigned short opCode;
 
     CalBddNot(f, f);
-    if (assoc->id == -1){
+    if (assoc->id == -1 || assoc->id >= CAL_OP_NUM_ASSOCIATIONS){
       opCode = CalTempAssociationNewOpCode(bddManager, 1);
     }
     else {
@@ -310,7 +310,7 @@ BddRelProdStep(Cal_BddManager_t * bddManager, Cal_Bdd_t  f, Cal_Bdd_t
     if (CalBddIsBddZero(bddManager, f) || CalBddIsBddZero(bddManager, g)){
       return bddManager->bddZero;
     }
-    if (assoc->id != -1){
+    if (assoc->id != -1 && assoc->id < CAL_OP_NUM_ASSOCIATIONS){
       opCode = CAL_OP_QUANT+assoc->id;
     }
     else{
-- 
2.43.0


From 8d3a65337b519d6807041bba6f4420ecfa8be081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:31 +0000
Subject: [PATCH 12/38] fix: BDDs whose nodes are reached three or more times
 are dumped and printed without repeating shared nodes

---
 src/calPrint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrint.c b/src/calPrint.c
index 4aa73f0..8d19427 100644
--- a/src/calPrint.c
+++ b/src/calPrint.c
@@ -173,8 +173,8 @@ CalBddMarkSharedNodes(Cal_BddManager_t *bddManager, Cal_Bdd_t f)
   if ((mark = CalBddGetMark(f))){
     if (mark == 1){
       CalBddPutMark(f, 2);
-      return;
     }
+    return;
   }
   CalBddPutMark(f, 1);
   CalBddGetThenBdd(f, thenBdd);
-- 
2.43.0


From 648b4b0346f35d2ca231112b5670be4d020c9f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:12 +0000
Subject: [PATCH 13/38] fix: undump of damaged files fails cleanly instead of
 writing out of bounds, dereferencing null or recursing without end

---
 src/calDump.c | 61 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/calDump.c b/src/calDump.c
index d9e8870..3ce940e 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -84,7 +84,7 @@ static long indexMask[] = {0xffl, 0xffffl, 0xffffffl};
 static void Write(Cal_BddManager_t * bddManager, unsigned long n, int bytes, FILE * fp);
 static void BddDumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, FILE * fp, CalHashTable_t * h, Cal_BddIndex_t * normalizedIndexes, int indexSize, int nodeNumberSize);
 static unsigned long Read(int * error, int bytes, FILE * fp);
-static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t * shared, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, int * error);
+static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t ** shared, long * sharedSize, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, long depth, int * error);
 static int BytesNeeded(long n);
 
 /**AutomaticEnd***************************************************************/
@@ -107,6 +107,7 @@ Cal_BddUndumpBdd(
   int indexSize;
   int nodeNumberSize;
   Cal_Bdd_t *shared;
+  long sharedSize;
   long sharedSoFar;
   Cal_Bdd_t v;
   Cal_Bdd_t result;
@@ -153,16 +154,19 @@ Cal_BddUndumpBdd(
     Cal_MemFree(vars);
     return Cal_BddNull(bddManager);
   }
-  shared = Cal_MemAlloc(Cal_Bdd_t, numberShared);
-  for(i = 0; i < numberShared; ++i){
-    shared[i] = CalBddNull(bddManager);
-  }
+  /*
+   * The number of shared nodes is not trusted: the array grows as nodes
+   * are read.
+   */
+  sharedSize = 64;
+  shared = Cal_MemAlloc(Cal_Bdd_t, sharedSize);
   sharedSoFar = 0;
-  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-      numberShared, &sharedSoFar, indexSize, nodeNumberSize, error);
+  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, &shared,
+      &sharedSize, numberShared, &sharedSoFar, indexSize, nodeNumberSize, 0l,
+      error);
   Cal_MemFree(vars);
 
-  for(i = 0; i < numberShared; ++i){
+  for(i = 0; i < sharedSoFar; ++i){
     v = shared[i];
     if(!CalBddIsBddNull(bddManager, v)){
       CalBddFree(v);
@@ -400,11 +404,13 @@ BddUndumpBddStep(
   Cal_Bdd_t * vars,
   FILE * fp,
   Cal_BddIndex_t  numberVars,
-  Cal_Bdd_t * shared,
+  Cal_Bdd_t ** shared,
+  long * sharedSize,
   long  numberShared,
   long * sharedSoFar,
   int  indexSize,
   int  nodeNumberSize,
+  long  depth,
   int * error)
 {
   long nodeNumber;
@@ -415,6 +421,11 @@ BddUndumpBddStep(
   Cal_Bdd_t temp1, temp2;
   Cal_Bdd_t result;
 
+  if(depth > 2l*numberVars){
+    /* A path has at most one node, possibly labelled, for each variable. */
+    *error = CAL_BDD_UNDUMP_FORMAT;
+    return CalBddNull(bddManager);
+  }
   i = Read(error, indexSize, fp);
   if(*error){
     return CalBddNull(bddManager);
@@ -457,14 +468,14 @@ BddUndumpBddStep(
     case POSNODE_ENCODING:
     case NEGNODE_ENCODING:
       nodeNumber = Read(error, nodeNumberSize, fp);
-      if(!*error && (nodeNumber >=  numberShared ||
-          CalBddIsBddNull(bddManager, shared[nodeNumber]))){
+      if(!*error && (nodeNumber >=  *sharedSoFar ||
+          CalBddIsBddNull(bddManager, (*shared)[nodeNumber]))){
         *error = CAL_BDD_UNDUMP_FORMAT;
       }
       if(*error){
         return CalBddNull(bddManager);
       }
-      v = shared[nodeNumber];
+      v = (*shared)[nodeNumber];
       v = CalBddIdentity(bddManager, v);
       if(encoding == POSNODE_ENCODING){
         return (v);
@@ -475,10 +486,23 @@ BddUndumpBddStep(
       }
     case NODELABEL_ENCODING:
       nodeNumber =  *sharedSoFar;
+      if(nodeNumber >=  numberShared){
+        *error = CAL_BDD_UNDUMP_FORMAT;
+        return CalBddNull(bddManager);
+      }
+      if(nodeNumber ==  *sharedSize){
+        *sharedSize *= 2;
+        *shared = Cal_MemRealloc(Cal_Bdd_t, *shared, *sharedSize);
+      }
+      (*shared)[nodeNumber] = CalBddNull(bddManager);
       ++*sharedSoFar;
       v = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-          numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
-      shared[nodeNumber] = v;
+          sharedSize, numberShared, sharedSoFar, indexSize, nodeNumberSize,
+          depth+1, error);
+      if(*error){
+        return CalBddNull(bddManager);
+      }
+      (*shared)[nodeNumber] = v;
       v = CalBddIdentity(bddManager, v);
       return (v);
     default:
@@ -491,9 +515,14 @@ BddUndumpBddStep(
     return CalBddNull(bddManager);
   }
   temp1 = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-       numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
+       sharedSize, numberShared, sharedSoFar, indexSize, nodeNumberSize,
+       depth+1, error);
+  if(*error){
+      return CalBddNull(bddManager);
+  }
   temp2 = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-       numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
+       sharedSize, numberShared, sharedSoFar, indexSize, nodeNumberSize,
+       depth+1, error);
   if(*error){
       CalBddFree(temp1);
       return CalBddNull(bddManager);
-- 
2.43.0


From 0b1ec5a8e2021848f8262f4773d0ebb48396cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:10 +0000
Subject: [PATCH 14/38] fix: results and pending requests of a pipeline survive
 collection, repacking and reordering until the pipeline is quit

---
 src/calGC.c          |  2 +-
 src/calHashTable.c   |  4 ++--
 src/calInteract.c    |  2 +-
 src/calPipeline.c    | 22 ++++++++++++++--------
 src/calReorderBF.c   | 14 +++++++-------
 src/calReorderDF.c   |  4 ++--
 src/calReorderUtil.c |  4 ++--
 7 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/calGC.c b/src/calGC.c
index 8599983..1a4b091 100644
--- a/src/calGC.c
+++ b/src/calGC.c
@@ -356,7 +356,7 @@ CalRepackNodesAfterGC(Cal_BddManager_t *bddManager)
     nodeManager->freeNodeList = freeNodeList;
   }
   /* Need to update the handles to the nodes being moved */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calHashTable.c b/src/calHashTable.c
index c9e187b..abae38f 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -673,7 +673,7 @@ CalBddPackNodesAfterReorderForSingleId(Cal_BddManager_t *bddManager,
                            bddManager->indexToId[index]);
   }
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -854,7 +854,7 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
 
   /* Fix the user BDDs */
   CalBddReorderFixUserBddPtrs(bddManager);
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calInteract.c b/src/calInteract.c
index 8c8d171..ba12e96 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -206,7 +206,7 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     CalRequestNode_t **requestNodeListArray =
         bddManager->requestNodeListArray;
     Cal_Bdd_t resultBdd;
diff --git a/src/calPipeline.c b/src/calPipeline.c
index 91bb09a..9c30c40 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -183,6 +183,8 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
   CalRequestNodePutNextRequestNode(requestNode,
       bddManager->requestNodeListArray[insertDepth]);
   bddManager->requestNodeListArray[insertDepth] = requestNode;
+  /* None of the requests has been executed yet */
+  bddManager->currentPipelineDepth = bddManager->pipelineDepth;
 
   CalBddGetMinId2(bddManager, f, g, bddId);
   CalBddPutBddId(provisionalBdd, bddId);
@@ -250,14 +252,7 @@ Cal_PipelineExecute(Cal_BddManager bddManager)
     }
     requestNodeListArray += bddManager->depth;
   }
-  /* Need to decrement the reference counts */
-  for (i=0; i<bddManager->pipelineDepth; i++){
-    for (node=bddManager->requestNodeListArray[i]; node; node = nextNode){
-      nextNode = CalBddNodeGetNextBddNode(node);
-      CalBddNodeGetThenBdd(node, thenBdd);
-      CalBddDcrRefCount(thenBdd);
-    }
-  }
+  /* The results stay locked until the pipeline is quit */
   bddManager->pipelineState = UPDATE;
   return 1;
 }
@@ -292,9 +287,19 @@ void
 Cal_PipelineQuit(Cal_BddManager bddManager)
 {
   CalRequestNode_t *requestNode, *next;
+  Cal_Bdd_t thenBdd;
   int i;
 
   bddManager->pipelineState = READY;
+  /* Unlock the results of the executed requests */
+  for (i=0; i<bddManager->pipelineDepth-bddManager->currentPipelineDepth; i++){
+    for (requestNode = bddManager->requestNodeListArray[i]; requestNode;
+         requestNode = next){
+      next = CalRequestNodeGetNextRequestNode(requestNode);
+      CalBddNodeGetThenBdd(requestNode, thenBdd);
+      CalBddDcrRefCount(thenBdd);
+    }
+  }
   for(i = 0; i < bddManager->pipelineDepth; i++){
     for(requestNode = bddManager->requestNodeListArray[i],
         bddManager->requestNodeListArray[i] = Cal_Nil(CalRequestNode_t);
@@ -306,6 +311,7 @@ Cal_PipelineQuit(Cal_BddManager bddManager)
     bddManager->requestNodeListArray[i] = Cal_Nil(CalRequestNode_t);
   }
   bddManager->pipelineDepth = 0;
+  bddManager->currentPipelineDepth = 0;
   for (requestNode = bddManager->userProvisionalNodeList; requestNode;
        requestNode = next){
     next = CalRequestNodeGetNextRequestNode(requestNode);
diff --git a/src/calReorderBF.c b/src/calReorderBF.c
index 6ed8128..6070ad7 100644
--- a/src/calReorderBF.c
+++ b/src/calReorderBF.c
@@ -568,7 +568,7 @@ CofactorFixAndReclaimForwardedNodes(Cal_BddManager_t *bddManager, int
   int index, varId;
   /* Clean up : Need to fix the cofactors of userBDDs and the
      indices above the varStartIndex only. */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -888,7 +888,7 @@ BddReorderSiftToBestPos(Cal_BddManager_t * bddManager, int
 
     if (swapFlag){
       /* Fix user BDD pointers and reclaim forwarding nodes */
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -950,7 +950,7 @@ BddReorderSiftToBestPos(Cal_BddManager_t * bddManager, int
 
     if (swapFlag){
       /* Fix user BDD pointers and reclaim forwarding nodes */
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1098,7 +1098,7 @@ BddSiftPerfromPhaseIV(Cal_BddManager_t *bddManager, int varStartIndex,
     CalBddReorderFixCofactors(bddManager, varId);
     varCurIndex--;
   }
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -1177,7 +1177,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
         CalBddReorderFixCofactors(bddManager, bddManager->indexToId[i]);
       }
       CalBddReorderFixUserBddPtrs(bddManager);
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1242,7 +1242,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
       }
       even = 1;
       CalBddReorderFixUserBddPtrs(bddManager);
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1256,7 +1256,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
       CalBddReorderFixCofactors(bddManager, bddManager->indexToId[i]);
     }
     CalBddReorderFixUserBddPtrs(bddManager);
-    if (bddManager->pipelineState == CREATE){
+    if (bddManager->pipelineState != READY){
       /* There are some results computed in pipeline */
       CalBddReorderFixProvisionalNodes(bddManager);
     }
diff --git a/src/calReorderDF.c b/src/calReorderDF.c
index 5a92224..44b3902 100644
--- a/src/calReorderDF.c
+++ b/src/calReorderDF.c
@@ -600,7 +600,7 @@ BddReallocateNodesInPlace(Cal_BddManager_t *bddManager)
     /* Fix the varBdd array */
   }
 /* Need to update the handles to the nodes being moved */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodesAfterReallocation(bddManager);
   }
@@ -795,7 +795,7 @@ BddReallocateNodes(Cal_BddManager_t *bddManager)
     CalBddIsForwardedTo(bddManager->varBdds[id]);
   }
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calReorderUtil.c b/src/calReorderUtil.c
index a2a7f3e..b992729 100644
--- a/src/calReorderUtil.c
+++ b/src/calReorderUtil.c
@@ -142,7 +142,7 @@ CalCheckAllValidity(Cal_BddManager bddManager)
     CalCheckValidityOfNodesForId(bddManager, id);
   }
   CalCheckAssociationValidity(bddManager);
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     CalCheckPipelineValidity(bddManager);
   }
   CalCheckRefCountValidity(bddManager);
@@ -334,7 +334,7 @@ CalCheckRefCountValidity(Cal_BddManager_t *bddManager)
         nextBddNode = CalBddNodeGetNextBddNode(bddNode);
         /* If the pipeline execution is going on, the following
            assertion will not hold */
-        if (bddManager->pipelineState != CREATE){
+        if (bddManager->pipelineState == READY){
           Cal_Assert(CalBddNodeIsRefCountZero(bddNode) ||
                      CalBddNodeIsRefCountMax(bddNode));
         }
-- 
2.43.0


From 9194839386f3a09a423f3d08a1abe97cb97e6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 15/38] fix: compose and multiway operations leave the pending
 requests of a pipeline alone

---
 src/calBddCompose.c |  4 +---
 src/calBddOp.c      | 40 ++++++++++++++++++----------------------
 2 files changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 96770d0..fbb1d6a 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -96,18 +96,16 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   CalRequestNodePutF(requestNode, F);
   CalRequestNodePutG(requestNode, H);
   CalRequestNodePutNextRequestNode(requestNode, 0);
-  bddManager->requestNodeListArray[0] = requestNode;
   /*
   ** We can achieve a superscalar compose operation, provided G
   ** is the same for all the compose operation
   */
 
-  CalRequestNodeListCompose(bddManager, bddManager->requestNodeListArray[0],
+  CalRequestNodeListCompose(bddManager, requestNode,
       CalBddGetBddIndex(bddManager, G));
 
   CalRequestNodeGetThenRequest(requestNode, result);
   CalNodeManagerFreeNode(bddManager->nodeManagerArray[0], requestNode);
-  bddManager->requestNodeListArray[0] = Cal_Nil(CalRequestNode_t);
 
   return CalBddGetExternalBdd(bddManager, result);
 }
diff --git a/src/calBddOp.c b/src/calBddOp.c
index d84ccc9..35bf8e9 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -43,6 +43,7 @@
 /*---------------------------------------------------------------------------*/
 /* Constant declarations                                                     */
 /*---------------------------------------------------------------------------*/
+#define MAX_MULTIWAY_DEPTH 10
 
 /*---------------------------------------------------------------------------*/
 /* Type declarations                                                         */
@@ -69,7 +70,7 @@
 
 static Cal_Bdd_t * BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t* bddArray, int numFunction, CalOpProc_t calOpProc);
 static Cal_Bdd_t BddMultiwayOp(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray, int numBdds, CalOpProc_t op);
-static void BddArrayToRequestNodeListArray(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray, int numBdds);
+static void BddArrayToRequestNodeListArray(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray, int numBdds, CalRequestNode_t ** requestNodeListArray);
 static int CeilLog2(int number);
 
 /**AutomaticEnd***************************************************************/
@@ -743,23 +744,22 @@ BddMultiwayOp(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray,
   int pipeDepth;
   CalRequestNode_t *requestNode;
   Cal_Bdd_t result;
+  /* The lists of the manager may hold the requests of a pipeline */
+  CalRequestNode_t *requestNodeListArray[MAX_MULTIWAY_DEPTH];
 
-  BddArrayToRequestNodeListArray(bddManager, calBddArray, numBdds);
-  CalRequestNodeListArrayOp(bddManager, bddManager->requestNodeListArray, op);
+  BddArrayToRequestNodeListArray(bddManager, calBddArray, numBdds,
+                                 requestNodeListArray);
+  CalRequestNodeListArrayOp(bddManager, requestNodeListArray, op);
   for(pipeDepth = 0; pipeDepth < bddManager->depth-1; pipeDepth++){
     CalRequestNode_t *next;
-    for(requestNode = bddManager->requestNodeListArray[pipeDepth];
+    for(requestNode = requestNodeListArray[pipeDepth];
         requestNode != Cal_Nil(CalRequestNode_t); requestNode = next){
       next = CalRequestNodeGetNextRequestNode(requestNode);
       CalNodeManagerFreeNode(bddManager->nodeManagerArray[0],
                              requestNode);
     }
-    bddManager->requestNodeListArray[pipeDepth] =
-        Cal_Nil(CalRequestNode_t);
   }
-  requestNode = bddManager->requestNodeListArray[bddManager->depth-1];
-  bddManager->requestNodeListArray[bddManager->depth-1] =
-      Cal_Nil(CalRequestNode_t);
+  requestNode = requestNodeListArray[bddManager->depth-1];
   CalRequestNodeGetThenRequest(requestNode, result);
   CalNodeManagerFreeNode(bddManager->nodeManagerArray[0],
                          requestNode);
@@ -773,27 +773,23 @@ static void
 BddArrayToRequestNodeListArray(
   Cal_BddManager_t * bddManager,
   Cal_Bdd_t * calBddArray,
-  int  numBdds)
+  int  numBdds,
+  CalRequestNode_t ** requestNodeListArray)
 {
   int i;
   Cal_Bdd_t lastBdd;
   CalRequestNode_t *even, *odd, *requestNode, *requestNodeList, *head;
 
   bddManager->depth = CeilLog2(numBdds);
-  if (bddManager->depth > 10){
+  if (bddManager->depth > MAX_MULTIWAY_DEPTH){
     CalBddFatalMessage("Don't be stooopid\n, Use lesser depth\n");
   }
 
   if (bddManager->depth > bddManager->maxDepth){
-    /* Need to reallocate the memory for reqQue and
-       requestNodeListArray */
+    /* Need to reallocate the memory for reqQue */
     int oldMaxDepth = bddManager->maxDepth;
     bddManager->maxDepth = bddManager->depth;
 
-    for (i=0; i<bddManager->maxDepth; i++){
-      bddManager->requestNodeListArray[i] = Cal_Nil(CalRequestNode_t);
-    }
-
     bddManager->reqQue = Cal_MemRealloc(CalHashTable_t **, bddManager->reqQue,
                                  bddManager->maxDepth);
     for (i=oldMaxDepth; i<bddManager->maxDepth; i++){
@@ -808,7 +804,7 @@ BddArrayToRequestNodeListArray(
   if (numBdds%2 != 0){/* Odd number of Bdd's */
     lastBdd = calBddArray[numBdds-1];
   }
-  requestNodeList = bddManager->requestNodeListArray[0];
+  requestNodeList = Cal_Nil(CalRequestNode_t);
   for (i=0; i<numBdds/2; i++){
     CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
     CalRequestNodePutF(requestNode, calBddArray[2*i]);
@@ -816,11 +812,11 @@ BddArrayToRequestNodeListArray(
     CalRequestNodePutNextRequestNode(requestNode, requestNodeList);
     requestNodeList = requestNode;
   }
-  bddManager->requestNodeListArray[0] = requestNodeList;
+  requestNodeListArray[0] = requestNodeList;
 
   for (i=1; i<bddManager->depth; i++){
-    requestNodeList = bddManager->requestNodeListArray[i];
-    head = bddManager->requestNodeListArray[i-1];
+    requestNodeList = Cal_Nil(CalRequestNode_t);
+    head = requestNodeListArray[i-1];
     while ((odd = head) && (even = head->nextBddNode)){
       CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
       /*
@@ -850,7 +846,7 @@ BddArrayToRequestNodeListArray(
         requestNodeList = requestNode;
       }
     }
-    bddManager->requestNodeListArray[i] = requestNodeList;
+    requestNodeListArray[i] = requestNodeList;
   }
 }
 
-- 
2.43.0


From 464f6c168cbc8c11703a23003d8836e92daa7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 16/38] fix: initialising a pipeline with an unsupported
 operation no longer blocks later pipelines

---
 src/calPipeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index 9c30c40..525db13 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -115,7 +115,6 @@ Cal_PipelineInit(Cal_BddManager bddManager, Cal_BddOp_t bddOp)
     return 0;
   }
   else{
-    bddManager->pipelineState = CREATE;
     switch(bddOp){
     case CAL_AND :
       bddManager->pipelineFn = CalOpAnd;
@@ -130,6 +129,7 @@ Cal_PipelineInit(Cal_BddManager bddManager, Cal_BddOp_t bddOp)
       CalBddWarningMessage("Unknown Bdd Operation type");
       return 0;
     }
+    bddManager->pipelineState = CREATE;
     return 1;
   }
 }
-- 
2.43.0


From 2f7ba72af34970be6c92cb735beb6305577957e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 17/38] fix: refusing a provisional BDD beyond the maximum
 depth no longer makes execute and quit run past the request lists

---
 src/calPipeline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index 525db13..c69cd3b 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -166,14 +166,14 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
       insertDepth = operandDepth + 1;
     }
   }
-  if (bddManager->pipelineDepth <= insertDepth){
-    bddManager->pipelineDepth = insertDepth + 1;
-  }
   if (insertDepth >= MAX_INSERT_DEPTH){
     CalBddWarningMessage("Provisional Bdd not created");
     CalBddWarningMessage("Maximum pipeline depth is reached");
     return Cal_BddNull(bddManager);
   }
+  if (bddManager->pipelineDepth <= insertDepth){
+    bddManager->pipelineDepth = insertDepth + 1;
+  }
 
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, f);
-- 
2.43.0


From 9c03057372c232d64c0c14179dd6d56deb24e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:17 +0000
Subject: [PATCH 18/38] fix: a pipeline whose execution ran into the node limit
 can be executed again and does not mix executed with new requests

---
 src/calBddManager.c |  2 +-
 src/calPipeline.c   | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/calBddManager.c b/src/calBddManager.c
index b91a1a3..5f3ae07 100644
--- a/src/calBddManager.c
+++ b/src/calBddManager.c
@@ -201,7 +201,7 @@ Cal_BddManagerInit( )
   bddManager->depth = DEFAULT_DEPTH;
   bddManager->maxDepth = DEFAULT_MAX_DEPTH;
   bddManager->pipelineState = READY;
-  bddManager->pipelineDepth = PIPELINE_EXECUTION_DEPTH;
+  bddManager->pipelineDepth = 0;
   bddManager->currentPipelineDepth = 0;
   bddManager->pipelineFn = CalOpAnd;
 
diff --git a/src/calPipeline.c b/src/calPipeline.c
index c69cd3b..101d4d2 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -154,6 +154,10 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
     CalBddWarningMessage("Provisional Bdd not created: Pipeline is not initialized");
     return Cal_BddNull(bddManager);
   }
+  if(bddManager->currentPipelineDepth != bddManager->pipelineDepth){
+    CalBddWarningMessage("Provisional Bdd not created: Pipeline is being executed");
+    return Cal_BddNull(bddManager);
+  }
   if(CalBddIsMarked(f)){
     CalBddGetDepth(f, operandDepth);
     if(insertDepth <= operandDepth){
@@ -219,8 +223,10 @@ Cal_PipelineExecute(Cal_BddManager bddManager)
   /* Check if we need to control the depth value using some heuristic */
   if (bddManager->depth == 0) automaticDepthControlFlag = 1;
 
-  requestNodeListArray = bddManager->requestNodeListArray;
-  pipelineDepth = bddManager->pipelineDepth;
+  /* After an overflow, resume with the levels not executed yet */
+  pipelineDepth = bddManager->currentPipelineDepth;
+  requestNodeListArray = bddManager->requestNodeListArray +
+      (bddManager->pipelineDepth - pipelineDepth);
   while(pipelineDepth){
     if (automaticDepthControlFlag){
       if (bddManager->numNodes < 10000) bddManager->depth = 4;
-- 
2.43.0


From cf4f73a028e867f762fe9f1189a1e7bce62d1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 19/38] fix: the profile vectors of the C++ interface hold
 their entries

---
 src/calObj.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index 4ebd6d1..d5fa173 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -598,7 +598,7 @@ public:
   std::vector<long> Profile(bool negout = true) const
   {
     std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    results.resize(Cal_BddVars(this->_bddManager)+1);
     Cal_BddProfile(this->_bddManager, this->_bdd, results.data(), negout);
     return results;
   }
@@ -630,7 +630,7 @@ public:
   std::vector<long> FunctionProfile() const
   {
     std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    results.resize(Cal_BddVars(this->_bddManager)+1);
     Cal_BddFunctionProfile(this->_bddManager, this->_bdd, results.data());
     return results;
   }
@@ -1956,7 +1956,7 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<long> levelCounts;
-    levelCounts.reserve(this->Vars()+1);
+    levelCounts.resize(this->Vars()+1);
 
     Cal_BddProfileMultiple(this->_bddManager,
                            c_arg.data(),
@@ -2067,7 +2067,7 @@ public:
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
     std::vector<long> funcCounts;
-    funcCounts.reserve(Vars()+1);
+    funcCounts.resize(Vars()+1);
 
     Cal_BddFunctionProfileMultiple(this->_bddManager, c_arg.data(), funcCounts.data());
 
-- 
2.43.0


From 7b4654bc6ace9111fcf54b58df2002d2d7120d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 20/38] fix: moving a BDD object onto itself keeps its BDD

---
 src/calObj.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calObj.hh b/src/calObj.hh
index d5fa173..eb6c7ba 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -157,6 +157,8 @@ public:
   //////////////////////////////////////////////////////////////////////////////
   BDD& operator= (BDD &&other)
   {
+    if (this == &other) { return *this; }
+
     this->Free();
 
     this->_bdd = other._bdd;
-- 
2.43.0


From ba5b1bfb9dede86e729e41e55c668a1347dee5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 21/38] fix: converting a pairwise result to C++ frees the C
 array and accepts none

---
 src/calObj.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calObj.hh b/src/calObj.hh
index eb6c7ba..7b3fe4e 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -743,13 +743,18 @@ protected:
   {
     std::vector<BDD> res;
 
+    if (bddArray == NULL) { return res; }
+
     for (int i = 0; Cal_BddIsBddNull(bddManager, bddArray[i]) == 0; i++){
       if (CalBddPreProcessing(bddManager, 1, bddArray[i]) == 0){
+        Cal_MemFree(bddArray);
         return std::vector<BDD>();
       }
       res.push_back(BDD(bddManager, bddArray[i]));
     }
 
+    Cal_MemFree(bddArray);
+
     return res;
   }
 
-- 
2.43.0


From c9ee79d72d32fa2efd6c25d3135558579aa35c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 22/38] fix: Cal_BddPrintFunctionProfile prints

---
 src/calPrintProfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrintProfile.c b/src/calPrintProfile.c
index 3360319..96da4fa 100644
--- a/src/calPrintProfile.c
+++ b/src/calPrintProfile.c
@@ -135,7 +135,7 @@ Cal_BddPrintFunctionProfile(Cal_BddManager bddManager,
                             FILE * fp)
 {
   long *levelCounts;
-  if (CalBddPreProcessing(bddManager, 1, f)){
+  if (CalBddPreProcessing(bddManager, 1, f) == 0){
 	return;
   }
   levelCounts = Cal_MemAlloc(long, bddManager->numVars+1);
-- 
2.43.0


From 0e1b291dfe172bae4f6020a62b0d1dcbfb8158b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 23/38] fix: Cal_BddCompose returns null for a null argument
 and counts the reference of a complemented result

---
 src/calBddCompose.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index fbb1d6a..591e9f8 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -82,15 +82,14 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   Cal_Bdd_t F, G, H;
 
   if (CalBddPreProcessing(bddManager, 3, fUserBdd, gUserBdd, hUserBdd) == 0){
-    result = bddManager->bddNull;
+    return Cal_BddNull(bddManager);
   }
   F = CalBddGetInternalBdd(bddManager, fUserBdd);
   G = CalBddGetInternalBdd(bddManager, gUserBdd);
   H = CalBddGetInternalBdd(bddManager, hUserBdd);
 
   if(CalBddIsBddConst(G)){
-    CalBddNodeIcrRefCount(fUserBdd);
-    return fUserBdd;
+    return Cal_BddIdentity(bddManager, fUserBdd);
   }
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, F);
-- 
2.43.0


From 7834762b2fa01042630b6a202d1951002fdc0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 24/38] fix: Cal_BddNot and Cal_BddIdentity return null for a
 null argument

---
 src/cal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cal.c b/src/cal.c
index b67182c..8e05a87 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -131,6 +131,7 @@ Cal_BddIdentity(Cal_BddManager bddManager, Cal_Bdd userBdd)
 {
   /* Interface BDD reference count */
   CalBddNode_t *bddNode = CAL_BDD_POINTER(userBdd);
+  if (bddNode == NULL) return Cal_BddNull(bddManager);
   CalBddNodeIcrRefCount(bddNode);
   return userBdd;
 }
@@ -166,6 +167,7 @@ Cal_BddNot(Cal_BddManager bddManager, Cal_Bdd userBdd)
 {
   /* Interface BDD reference count */
   CalBddNode_t *bddNode = CAL_BDD_POINTER(userBdd);
+  if (bddNode == NULL) return Cal_BddNull(bddManager);
   CalBddNodeIcrRefCount(bddNode);
   return CalBddNodeNot(userBdd);
 }
-- 
2.43.0


From 84f066e3775b2bf7bdd98c280fafa5027f3f1e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 25/38] fix: freeing or unfreeing a null BDD does nothing

---
 src/cal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cal.c b/src/cal.c
index 8e05a87..c6a5288 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -258,6 +258,7 @@ void
 Cal_BddFree(Cal_BddManager bddManager, Cal_Bdd userBdd)
 {
   /* Interface BDD reference count */
+  if (Cal_BddIsBddNull(bddManager, userBdd)) return;
   CalBddNodeDcrRefCount(CAL_BDD_POINTER(userBdd));
 }
 
@@ -269,6 +270,7 @@ Cal_BddUnFree(Cal_BddManager bddManager, Cal_Bdd userBdd)
 {
   /* Interface BDD reference count */
   CalBddNode_t *bddNode = CAL_BDD_POINTER(userBdd);
+  if (bddNode == NULL) return;
   CalBddNodeIcrRefCount(bddNode);
 }
 
-- 
2.43.0


From 080c45f32f7b628452cea7bae3692cc6d6dfc6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 26/38] fix: Cal_BddIsCube answers 0 for a null BDD

---
 src/cal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cal.c b/src/cal.c
index c6a5288..d358d92 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -534,6 +534,7 @@ Cal_BddIsCube(
 {
   Cal_Bdd_t f0, f1;
   Cal_Bdd_t f;
+  if (Cal_BddIsBddNull(bddManager, fUserBdd)) return 0;
   f = CalBddGetInternalBdd(bddManager, fUserBdd);
   if (CalBddIsBddConst(f)){
     return !CalBddIsBddZero(bddManager, f);
-- 
2.43.0


From 5af0a6d62d21ca332f3684bcc44a26d0062ea80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 27/38] fix: creating a variable next to, or a block at, a null
 BDD returns null

---
 src/calBddManager.c | 8 ++++++--
 src/calBlk.c        | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/calBddManager.c b/src/calBddManager.c
index 5f3ae07..6f0254a 100644
--- a/src/calBddManager.c
+++ b/src/calBddManager.c
@@ -394,7 +394,9 @@ Cal_Bdd
 Cal_BddManagerCreateNewVarBefore(Cal_BddManager bddManager,
                                  Cal_Bdd userBdd)
 {
-  Cal_Bdd_t calBdd = CalBddGetInternalBdd(bddManager, userBdd);
+  Cal_Bdd_t calBdd;
+  if (Cal_BddIsBddNull(bddManager, userBdd)) return Cal_BddNull(bddManager);
+  calBdd = CalBddGetInternalBdd(bddManager, userBdd);
   if (CalBddIsBddConst(calBdd)){
     return Cal_BddManagerCreateNewVarLast(bddManager);
   }
@@ -412,7 +414,9 @@ Cal_Bdd
 Cal_BddManagerCreateNewVarAfter(Cal_BddManager bddManager,
                                 Cal_Bdd userBdd)
 {
-  Cal_Bdd_t calBdd = CalBddGetInternalBdd(bddManager, userBdd);
+  Cal_Bdd_t calBdd;
+  if (Cal_BddIsBddNull(bddManager, userBdd)) return Cal_BddNull(bddManager);
+  calBdd = CalBddGetInternalBdd(bddManager, userBdd);
   if (CalBddIsBddConst(calBdd)){
     return Cal_BddManagerCreateNewVarLast(bddManager);
   }
diff --git a/src/calBlk.c b/src/calBlk.c
index 214ee0a..1368d95 100644
--- a/src/calBlk.c
+++ b/src/calBlk.c
@@ -75,7 +75,10 @@ Cal_Block
 Cal_BddNewVarBlock(Cal_BddManager bddManager, Cal_Bdd variable, long length)
 {
   Cal_Block b;
-  Cal_Bdd_t calBdd = CalBddGetInternalBdd(bddManager, variable);
+  Cal_Bdd_t calBdd;
+
+  if (Cal_BddIsBddNull(bddManager, variable)) return (Cal_Block) 0;
+  calBdd = CalBddGetInternalBdd(bddManager, variable);
 
   if (CalBddTypeAux(bddManager, calBdd) != CAL_BDD_TYPE_POSVAR) {
     CalBddWarningMessage("Cal_BddNewVarBlock: second argument is not a positive variable\n");
-- 
2.43.0


From 70dce0ac781448c765e594e64b15ce423929525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 28/38] fix: pipeline requests with a null operand are refused
 and a null BDD is not provisional

---
 src/calPipeline.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/calPipeline.c b/src/calPipeline.c
index 101d4d2..c353672 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -148,6 +148,9 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
 
   insertDepth = 0;
 
+  if (fUserBdd == 0 || gUserBdd == 0){
+    return Cal_BddNull(bddManager);
+  }
   f = CalBddGetInternalBdd(bddManager, fUserBdd);
   g = CalBddGetInternalBdd(bddManager, gUserBdd);
   if(bddManager->pipelineState != CREATE){
@@ -269,7 +272,11 @@ Cal_Bdd
 Cal_PipelineUpdateProvisionalBdd(Cal_BddManager bddManager,
                                  Cal_Bdd provisionalBdd)
 {
-  Cal_Bdd_t calBdd = CalBddGetInternalBdd(bddManager, provisionalBdd);
+  Cal_Bdd_t calBdd;
+  if (Cal_BddIsBddNull(bddManager, provisionalBdd)){
+    return Cal_BddNull(bddManager);
+  }
+  calBdd = CalBddGetInternalBdd(bddManager, provisionalBdd);
   if(bddManager->pipelineState != UPDATE){
     CalBddWarningMessage("Provisional Bdd cannot be updated");
     return Cal_BddNull(bddManager);
@@ -283,7 +290,9 @@ Cal_PipelineUpdateProvisionalBdd(Cal_BddManager bddManager,
 int
 Cal_BddIsProvisional(Cal_BddManager bddManager, Cal_Bdd userBdd)
 {
-  Cal_Bdd_t internalBdd = CalBddGetInternalBdd(bddManager, userBdd);
+  Cal_Bdd_t internalBdd;
+  if (Cal_BddIsBddNull(bddManager, userBdd)) return 0;
+  internalBdd = CalBddGetInternalBdd(bddManager, userBdd);
   return CalBddIsMarked(internalBdd);
 }
 
-- 
2.43.0


From e9c2b256f231d04f5bd019089c50bfdfe2d196e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 29/38] fix: printing a null BDD prints nothing

---
 src/calPrint.c | 5 ++++-
 src/calUtil.c  | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calPrint.c b/src/calPrint.c
index 8d19427..894e3b7 100644
--- a/src/calPrint.c
+++ b/src/calPrint.c
@@ -96,7 +96,10 @@ Cal_BddPrintBdd(Cal_BddManager bddManager,
   long next;
   CalHashTable_t *hashTable;
 
-  Cal_Bdd_t f = CalBddGetInternalBdd(bddManager,fUserBdd);
+  Cal_Bdd_t f;
+
+  if (Cal_BddIsBddNull(bddManager, fUserBdd)) return;
+  f = CalBddGetInternalBdd(bddManager,fUserBdd);
   CalBddMarkSharedNodes(bddManager, f);
   hashTable = CalHashTableOneInit(bddManager, sizeof(long));
   next = 0;
diff --git a/src/calUtil.c b/src/calUtil.c
index 66df24e..11d43ad 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -122,6 +122,7 @@ Cal_BddFunctionPrint(Cal_BddManager bddManager, Cal_Bdd  userBdd,
                      char *name)
 {
   Cal_Bdd_t calBdd;
+  if (Cal_BddIsBddNull(bddManager, userBdd)) return;
   calBdd = CalBddGetInternalBdd(bddManager, userBdd);
   CalBddFunctionPrint(bddManager, calBdd, name);
 }
-- 
2.43.0


From 85419e5873a49a8253e0ecb8d9a3a43007c4e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:26 +0000
Subject: [PATCH 30/38] fix: repacking several levels frees the old hash bins

---
 src/calHashTable.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calHashTable.c b/src/calHashTable.c
index abae38f..2c6c898 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -799,6 +799,8 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
           Cal_Assert(!(CalBddNodeIsRefCountZero(dupNode)));
         }
       }
+      /* Free the old bins */
+      Cal_MemFree(oldBins);
 
 #ifdef __FOO__
       /*fprintf(stdout,"Repacking id = %d, index = %d\n", id, index+level);*/
-- 
2.43.0


From 97d40aeb08e6df124402882a6af130ad6f4be88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:51 +0000
Subject: [PATCH 31/38] fix: a page manager that cannot be created returns all
 its memory

---
 src/calMemoryManagement.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calMemoryManagement.c b/src/calMemoryManagement.c
index 53e9e4c..1e0caef 100644
--- a/src/calMemoryManagement.c
+++ b/src/calMemoryManagement.c
@@ -115,6 +115,7 @@ CalPageManagerInit(int numPagesPerSegment)
   pageManager->freePageList = Cal_Nil(CalAddress_t);
   if(PageManagerExpandStorage(pageManager) == FALSE){
     Cal_MemFree(pageManager->pageSegmentArray);
+    Cal_MemFree(pageManager->numPagesArray);
     Cal_MemFree(pageManager);
     return Cal_Nil(CalPageManager_t);
   }
-- 
2.43.0


From f2c2f84b681e808e89efa751e5faa9c7a07ecdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:50 +0000
Subject: [PATCH 32/38] fix: automatic garbage collection stays off after
 Cal_BddSetGCMode(manager, 0)

---
 src/calUtil.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/calUtil.c b/src/calUtil.c
index 11d43ad..5464420 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -219,19 +219,24 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
   bddManager->gcCheck = CAL_GC_CHECK;
   if(bddManager->numNodes > bddManager->uniqueTableGCLimit){
     long origNodes = bddManager->numNodes;
-    Cal_BddManagerGC(bddManager);
+    if (bddManager->gcMode){
+      Cal_BddManagerGC(bddManager);
+    }
     if ((bddManager->numNodes > bddManager->reorderingThreshold) &&
         (3*bddManager->numNodes > 2* bddManager->uniqueTableGCLimit) &&
         (bddManager->reorderTechnique != CAL_REORDER_NONE)){
       CalCacheTableTwoFlush(bddManager->cacheTable);
       if (bddManager->reorderMethod == CAL_REORDER_METHOD_BF){
+        if (bddManager->gcMode == 0){
+          Cal_BddManagerGC(bddManager); /* Only live nodes can be reordered */
+        }
         CalBddReorderAuxBF(bddManager);
       }
       else{
         CalBddReorderAuxDF(bddManager);
       }
     }
-    else {
+    else if (bddManager->gcMode){
       /* Check if we should repack */
       Cal_Assert(CalCheckAllValidity(bddManager));
       if (bddManager->numNodes <
-- 
2.43.0


From ec22da6659a681030a65647ea7909e834b710b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:02 +0000
Subject: [PATCH 33/38] fix: substitution loses the requests that needed an
 if-then-else

The requests of a level that are completed by the if-then-else pass were put
behind the last node of the clean-up list without moving its end, so that
CalHashTableCleanUp() cut them off: every Cal_BddSubstitute and
Cal_BddVarSubstitute lost nodes until the manager is quit.
---
 src/calBddSubstitute.c    |  9 ++++-----
 src/calBddVarSubstitute.c | 12 ++++++------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/calBddSubstitute.c b/src/calBddSubstitute.c
index 26eef5e..6b1b77f 100644
--- a/src/calBddSubstitute.c
+++ b/src/calBddSubstitute.c
@@ -342,20 +342,19 @@ CalHashTableSubstituteReduce(
   }
 
 
-  /*last = Cal_Nil(CalRequestNode_t);*/
   for(requestNode = requestNodeListForITE;
       requestNode != Cal_Nil(CalRequestNode_t);
-      /*last = requestNode, */
-      requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
+      requestNode = next){
+    next = CalRequestNodeGetNextRequestNode(requestNode);
     CalRequestNodeGetThenRequest(requestNode, result);
     CalBddNodeGetRefCount(requestNode, refCount);
     CalRequestIsForwardedTo(result);
     CalBddAddRefCount(result, refCount);
     CalRequestNodePutThenRequest(requestNode, result);
+    endNode->nextBddNode = requestNode;
+    endNode = requestNode;
   }
 
-  /*CalBddNodePutNextBddNode(endNode, requestNodeListForITE);*/
-  endNode->nextBddNode = requestNodeListForITE;
   hashTable->endNode = endNode;
 
   /* ITE Cleanup */
diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 7e44013..0fdecc5 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -278,7 +278,7 @@ CalHashTableSubstituteReduce(
   /*CalRequestNode_t *requestNodeList = hashTable->requestNodeList;*/
   CalRequestNode_t *endNode = hashTable->endNode;
   CalRequestNode_t *requestNodeListForITE = Cal_Nil(CalRequestNode_t);
-  CalRequestNode_t *requestNode, *next, *last;
+  CalRequestNode_t *requestNode, *next;
   CalBddNode_t *bddNode;
   Cal_Bdd_t varBdd;
   Cal_Bdd_t thenBdd, elseBdd, result;
@@ -476,19 +476,19 @@ CalHashTableSubstituteReduce(
     }
   }
 
-  last = Cal_Nil(CalRequestNode_t);
-  for(requestNode = requestNodeListForITE; 
+  for(requestNode = requestNodeListForITE;
       requestNode != Cal_Nil(CalRequestNode_t);
-      last = requestNode, 
-      requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
+      requestNode = next){
+    next = CalRequestNodeGetNextRequestNode(requestNode);
     CalRequestNodeGetThenRequest(requestNode, result);
     CalBddNodeGetRefCount(requestNode, refCount);
     CalRequestIsForwardedTo(result);
     CalBddAddRefCount(result, refCount);
     CalRequestNodePutThenRequest(requestNode, result);
+    endNode->nextBddNode = requestNode;
+    endNode = requestNode;
   }
 
-  endNode->nextBddNode = requestNodeListForITE;
   hashTable->endNode = endNode;
   /* ITE Cleanup */
   for(bddId = 1; bddId <= bddManager->numVars; bddId++){
-- 
2.43.0


From c6785d5807abca41035acba3dcb54967dddc482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:02 +0000
Subject: [PATCH 34/38] fix: breadth-first sifting loses its forwarding nodes

The end of the list of forwarding nodes was not maintained, so that
CalBddReorderReclaimForwardedNodes() dropped the list instead of putting it on
the free list: every sifting lost the nodes that were forwarded until the
manager is quit.
---
 src/calReorderBF.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/calReorderBF.c b/src/calReorderBF.c
index 6070ad7..3aa8a5d 100644
--- a/src/calReorderBF.c
+++ b/src/calReorderBF.c
@@ -140,6 +140,7 @@ BddReorderFixForwardingNodes(Cal_BddManager bddManager,
   CalHashTable_t *uniqueTableForId =
       bddManager->uniqueTable[id];
   CalBddNode_t *bddNode, *nextBddNode;
+  CalBddNode_t *lastFixedNode = Cal_Nil(CalBddNode_t);
   Cal_Bdd_t thenBdd;
 
   /* These are the forwarding nodes. */
@@ -157,11 +158,16 @@ BddReorderFixForwardingNodes(Cal_BddManager bddManager,
       break;
     }
     Cal_Assert(CalBddIsForwarded(thenBdd) == 0);
+    lastFixedNode = bddNode;
+  }
+  /* Adjust the list: the fixed nodes are moved to its end */
+  if (lastFixedNode && bddNode){
+    uniqueTableForId->endNode->nextBddNode =
+        uniqueTableForId->startNode.nextBddNode;
+    uniqueTableForId->startNode.nextBddNode = bddNode;
+    lastFixedNode->nextBddNode = Cal_Nil(CalBddNode_t);
+    uniqueTableForId->endNode = lastFixedNode;
   }
-  /* Adjust the list */
-  uniqueTableForId->endNode->nextBddNode =
-      uniqueTableForId->startNode.nextBddNode;
-  uniqueTableForId->startNode.nextBddNode = bddNode;
 }
 
 /**Function********************************************************************
@@ -439,6 +445,10 @@ BddReorderSwapVarIndex(Cal_BddManager_t * bddManager, int varIndex,
   bddNode = processingNodeList;
   /*endNode = uniqueTableForId->endNode;*/
   startNode = uniqueTableForId->startNode.nextBddNode;
+  if (startNode == Cal_Nil(CalBddNode_t) && bddNode != Cal_Nil(CalBddNode_t)){
+    /* The first node put in the list is the last one of the list */
+    uniqueTableForId->endNode = bddNode;
+  }
   while (bddNode != Cal_Nil(CalBddNode_t)) {
     nextBddNode = CalBddNodeGetNextBddNode(bddNode);
 
-- 
2.43.0


From 8b900a0829ad6f959a5a3ca1b364409541ac45ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:32 +0000
Subject: [PATCH 35/38] fix: the interaction matrix of more than 46341
 variables is computed without integer overflow

---
 src/calInteract.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/calInteract.c b/src/calInteract.c
index ba12e96..ab0d752 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -109,13 +109,14 @@ static void ddRootInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *suppo
 void
 CalSetInteract(Cal_BddManager_t *bddManager, int x, int y)
 {
-    int posn, word, bit;
+    long posn, word;
+    int bit;
 
     Cal_Assert(x < y);
     Cal_Assert(y < bddManager->numVars);
     Cal_Assert(x >= 0);
 
-    posn = ((((bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
+    posn = (((((long) bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
     word = posn >> LOGBPL;
     bit = posn & (BPL-1);
     bddManager->interact[word] |= 1 << bit;
@@ -133,7 +134,8 @@ CalSetInteract(Cal_BddManager_t *bddManager, int x, int y)
 int
 CalTestInteract(Cal_BddManager_t *bddManager, int x, int y)
 {
-    int posn, word, bit, result;
+    long posn, word;
+    int bit, result;
 
     x -= 1;
     y -= 1;
@@ -147,7 +149,7 @@ CalTestInteract(Cal_BddManager_t *bddManager, int x, int y)
     Cal_Assert(y < bddManager->numVars);
     Cal_Assert(x >= 0);
 
-    posn = ((((bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
+    posn = (((((long) bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
     word = posn >> LOGBPL;
     bit = posn & (BPL-1);
     result = (bddManager->interact[word] >> bit) & 1;
@@ -167,7 +169,7 @@ int
 CalInitInteract(Cal_BddManager_t *bddManager)
 {
   int i,k;
-  int words;
+  long words, word;
   long *interact;
   int *support;
   long numBins;
@@ -176,11 +178,11 @@ CalInitInteract(Cal_BddManager_t *bddManager)
 
   int n = bddManager->numVars;
 
-  words = ((n * (n-1)) >> (1 + LOGBPL)) + 1;
+  words = (((long) n * (n-1)) >> (1 + LOGBPL)) + 1;
   bddManager->interact = interact = Cal_MemAlloc(long, words);
   if (interact == NULL) return(0);
-  for (i = 0; i < words; i++) {
-      interact[i] = 0;
+  for (word = 0; word < words; word++) {
+      interact[word] = 0;
   }
 
   support = Cal_MemAlloc(int, n);
-- 
2.43.0


From 93a7ba7a6732c6e6eab269c4d365d432adc84771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:53 +0000
Subject: [PATCH 36/38] fix: Cal_BddIntersects and Cal_BddImplies searched
 every path of disjoint operands

The search for a witness visited the same pair of nodes once per path that
leads to it, so that for two disjoint BDDs (f and g for Cal_BddIntersects, f
and not g for Cal_BddImplies) the running time was exponential in the number
of variables. Remember the pairs found disjoint in the computed table.
---
 src/cal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cal.c b/src/cal.c
index d358d92..cd89021 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -684,6 +684,11 @@ BddIntersectsStep(Cal_BddManager_t * bddManager, Cal_Bdd_t  f, Cal_Bdd_t  g)
       return bddManager->bddZero;
   }
   if (CAL_BDD_OUT_OF_ORDER(f, g)) CAL_BDD_SWAP(f, g);
+  /* Do not search a pair again that is known to be disjoint */
+  if (CalCacheTableTwoLookup(bddManager, f, g, CAL_OP_NAND, &result) &&
+      CalBddIsBddOne(bddManager, result)){
+    return bddManager->bddZero;
+  }
   CalBddGetMinId2(bddManager, f, g, topId);
   CalBddGetCofactors(f, topId, f1, f2);
   CalBddGetCofactors(g, topId, g1, g2);
@@ -691,6 +696,8 @@ BddIntersectsStep(Cal_BddManager_t * bddManager, Cal_Bdd_t  f, Cal_Bdd_t  g)
   if (CalBddIsBddZero(bddManager, temp)){
     temp = BddIntersectsStep(bddManager, f2, g2);
     if (CalBddIsBddZero(bddManager, temp)){
+      CalCacheTableTwoInsert(bddManager, f, g, bddManager->bddOne,
+                             CAL_OP_NAND, 0);
       return bddManager->bddZero;
     }
     else{
-- 
2.43.0


From e90a9746be9194b17d4bac4c8c6289163fba94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:08 +0000
Subject: [PATCH 37/38] fix: nodes made depth first count towards the check for
 garbage collection

Quantification and the other operations that make nodes through
CalUniqueTableForIdFindOrAdd did not decrement gcCheck, so a run of such
operations never collected, however much garbage it left.
---
 src/calHashTable.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/calHashTable.c b/src/calHashTable.c
index 2c6c898..388ba14 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -395,7 +395,10 @@ CalUniqueTableForIdFindOrAdd(
     found = CalHashTableFindOrAdd(hashTable, thenBdd, elseBdd, bddPtr);
     CalBddNot(*bddPtr, *bddPtr);
   }
-  if (!found) bddManager->numNodes++;
+  if (!found){
+    bddManager->numNodes++;
+    bddManager->gcCheck--;
+  }
   return found;
 }
 
-- 
2.43.0


From 785cb219460b549358b8eea5ff88346862719fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:29 +0000
Subject: [PATCH 38/38] fix: quantification shrinks the bins of its request
 tables without their capacity

---
 src/calQuant.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calQuant.c b/src/calQuant.c
index 8d6ede6..5192e6b 100644
--- a/src/calQuant.c
+++ b/src/calQuant.c
@@ -872,6 +872,8 @@ BddExistsBFPlusDF(Cal_BddManager_t *bddManager, Cal_Bdd_t f, unsigned
     existHashTableArray[bddId]->sizeIndex =
         DEFAULT_EXIST_HASH_TABLE_SIZE_INDEX;
     existHashTableArray[bddId]->numBins = DEFAULT_EXIST_HASH_TABLE_SIZE;
+    existHashTableArray[bddId]->maxCapacity =
+        DEFAULT_EXIST_HASH_TABLE_SIZE*HASH_TABLE_DEFAULT_MAX_DENSITY;
     Cal_MemFree(existHashTableArray[bddId]->bins);
     existHashTableArray[bddId]->bins = Cal_MemAlloc(CalBddNode_t*,
                                              DEFAULT_EXIST_HASH_TABLE_SIZE);
@@ -1285,6 +1287,8 @@ BddRelProdBFPlusDF(Cal_BddManager_t * bddManager, Cal_Bdd_t  f,
     relProdHashTableArray[bddId]->sizeIndex =
         DEFAULT_EXIST_HASH_TABLE_SIZE_INDEX;
     relProdHashTableArray[bddId]->numBins = DEFAULT_EXIST_HASH_TABLE_SIZE;
+    relProdHashTableArray[bddId]->maxCapacity =
+        DEFAULT_EXIST_HASH_TABLE_SIZE*HASH_TABLE_DEFAULT_MAX_DENSITY;
     Cal_MemFree(relProdHashTableArray[bddId]->bins);
     relProdHashTableArray[bddId]->bins = Cal_MemAlloc(CalBddNode_t*,
                                              DEFAULT_EXIST_HASH_TABLE_SIZE);
-- 
2.43.0

