From 9f1d0996b9f2da793c32d2001ffb0b41f28775d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 01/57] fix: calling a function by name continues a context
 whose top level yielded

---
 discrete_src/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index a1c1a99..cb7a3a7 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1059,7 +1059,7 @@ WRValue* wr_callFunction( WRContext* context, const int32_t hash, const WRValue*
 
 	if ( hash )
 	{
-		if ( context->stopLocation == 0 )
+		if ( context->stopLocation == 0 && !context->yield_pc ) // a yielded context is continued, below
 		{
 			context->w->err = WR_ERR_run_must_be_called_by_itself_first;
 			return 0;
-- 
2.43.0


From 426a33b153fb06c5d41492bb32df82f6a54fd215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:05 +0000
Subject: [PATCH 02/57] fix: a function's first local starts as zero, not as
 what was left on the stack

---
 discrete_src/vm/vm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 7a44535..d041fc9 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1048,8 +1048,8 @@ callFunction:
 				// initialize locals to int zero
 				for( int l=0; l<function->frameSpaceNeeded; ++l )
 				{
-					(stackTop++)->p2 = INIT_AS_INT;
 					stackTop->p = 0;
+					(stackTop++)->p2 = INIT_AS_INT;
 				}
 			
 				// temp value contains return vector/frame base
-- 
2.43.0


From 985f9091af8cd94d770850a69ee3410917a86548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:43 +0000
Subject: [PATCH 03/57] fix: a removed hash entry leaves nothing behind for the
 next key in its slot

---
 discrete_src/vm/gc_object.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index ad49ef7..5a0eca0 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -124,6 +124,13 @@ foundExists:
 	{
 		--m_size;
 		m_hashTable[index] = WRENCH_NULL_HASH;
+
+		if ( m_type == SV_HASH_TABLE )
+		{
+			// forget the value and key, the slot may be handed to another key
+			m_Vdata[index << 1].init();
+			m_Vdata[(index << 1) + 1].init();
+		}
 	}
 
 	return m_Vdata + ((m_type == SV_HASH_TABLE) ? (index << 1) : index);
-- 
2.43.0


From 537c53b6b306a60a84061d5d992b0cd8c4893ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:43 +0000
Subject: [PATCH 04/57] fix: a cleared message leaves nothing behind in the
 global registry

---
 discrete_src/lib/std_msg.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/discrete_src/lib/std_msg.cpp b/discrete_src/lib/std_msg.cpp
index f28ac5f..351c250 100644
--- a/discrete_src/lib/std_msg.cpp
+++ b/discrete_src/lib/std_msg.cpp
@@ -41,6 +41,10 @@ void wr_mboxRead( WRValue* stackTop, const int argn, WRContext* c )
 		if ( msg )
 		{
 			*stackTop = *msg;
+			if ( clear )
+			{
+				msg->init(); // the slot is free, leave nothing in it
+			}
 			return;
 		}
 	}
@@ -67,7 +71,11 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0 )
 	{
-		c->w->globalRegistry.exists((stackTop - argn)->getHash(), true );
+		WRValue* msg = c->w->globalRegistry.exists((stackTop - argn)->getHash(), true );
+		if ( msg )
+		{
+			msg->init(); // the slot is free, leave nothing in it
+		}
 	}
 }
 
-- 
2.43.0


From fdc7af7a861196080b53a86b55b1ed08391510fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:13 +0000
Subject: [PATCH 05/57] fix: a hash literal stores element values, not aliases
 of stack slots

---
 discrete_src/vm/operations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index deb8ccb..0b49edf 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -361,8 +361,8 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 
 	WRValue *entry = (WRValue *)table->va->get( index->getHash() );
 
-	*entry++ = *value;
-	*entry = *index;
+	*entry++ = value->deref(); // never keep an alias of an element in the table
+	*entry = index->deref();
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From c33975fcb64359efa7edb92fcd7522c1b74abcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:36 +0000
Subject: [PATCH 06/57] fix: bitwise and shift operators accept an element on
 the left of a reference

---
 discrete_src/vm/operations_non_compact.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index fae3ea9..b20c990 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -653,7 +653,7 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 	WRValue& V = from->singleValue();\
 	NAME##Binary[(WR_INT<<2)+V.type](to, &V, target);\
 }\
-void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
+void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
 void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-- 
2.43.0


From 8964655b154dadf6c4432a71f30c294f344a9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:36 +0000
Subject: [PATCH 07/57] fix: list, queue and stack push store the value, not a
 reference to a stack slot

---
 discrete_src/lib/std_container.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 0ee1cb1..7e6b9fe 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -283,7 +283,7 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 	const unsigned int where = A->va->m_size;
 
 	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1];
+	A->va->m_Vdata[where] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
@@ -298,7 +298,7 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1];
+	A->va->m_Vdata[0] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 41ef588ce495416416b390df9e7c3e8cee23096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:57 +0000
Subject: [PATCH 08/57] fix: collection keeps a container that only references
 into it still hold

---
 discrete_src/vm/gc.cpp | 46 ++++++++++++++++++++++++++++++++++++++++++
 discrete_src/wrench.h  |  1 +
 2 files changed, 47 insertions(+)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index f7968bb..cb261dc 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -61,6 +61,51 @@ void WRContext::markBase( WRGCBase* svb )
 	svb->m_flags |= GCFlag_Marked;
 }
 
+//------------------------------------------------------------------------------
+void WRContext::markReferred( WRValue* s )
+{
+	// a value on the stack can refer INTO a container (an argument passed
+	// by reference, for example) and may be all that refers to it by now,
+	// so find which one that is
+	const WRValue* globalSpace = (const WRValue *)(this + 1);
+	if ( (s->type != WR_REF && !IS_CONTAINER_MEMBER(s->xtype))
+		 || (s->r >= stack && s->r < stack + w->stackSize)
+		 || (s->r >= globalSpace && s->r < globalSpace + globals) )
+	{
+		return;
+	}
+
+	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+	{
+		if ( a->m_type == SV_HASH_INTERNAL )
+		{
+			if ( a == s->vb && IS_CONTAINER_MEMBER(s->xtype) && !(a->m_flags & GCFlag_Marked) )
+			{
+				// if the table has since grown its entries refer to their new location
+				a->m_flags |= GCFlag_Marked;
+				markReferred( (WRValue*)(a + 1) + DECODE_ARRAY_ELEMENT_FROM_P2(s->p2) );
+			}
+		}
+		else if ( (a->m_type == SV_VALUE || a->m_type == SV_HASH_TABLE) && !(a->m_flags & GCFlag_Marked) )
+		{
+			const WRValue* data = ((WRGCObject*)a)->m_Vdata;
+			const void* begin = data;
+			const void* end = data + ((WRGCObject*)a)->m_size;
+
+			if ( a->m_type == SV_HASH_TABLE )
+			{
+				begin = (const WRGCBase*)data - 1; // table has its own header
+				end = data + (((WRGCObject*)a)->m_mod << 1);
+			}
+
+			if ( (const void*)s->r >= begin && (const void*)s->r < end )
+			{
+				markBase( a );
+			}
+		}
+	}
+}
+
 //------------------------------------------------------------------------------
 void WRContext::mark( WRValue* s )
 {
@@ -106,6 +151,7 @@ void WRContext::gc( WRValue* stackTop )
 		for( WRValue* s=stack + stackOffset; s<stackTop; ++s)
 		{
 			mark( s );
+			markReferred( s );
 		}
 	}
 	
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index ac15142..702a683 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1158,6 +1158,7 @@ struct WRContext
 
 	void markBase( WRGCBase* svb );
 	void mark( WRValue* s );
+	void markReferred( WRValue* s );
 	void gc( WRValue* stackTop );
 
 	WRGCObject* getSVA( int size, WRGCObjectType type, bool init );
-- 
2.43.0


From 019fa82a5fce67efed0baebcbceb5bbbf69d9e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:18 +0000
Subject: [PATCH 09/57] fix: collection on a function call marks only the
 arguments, not the stale slot above them

---
 discrete_src/vm/vm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index d041fc9..641a5c8 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -724,7 +724,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		
 		pc = context->stopLocation;
 
-		context->gc( stackTop + 1 );
+		context->gc( stackTop );
 
 		goto callFunction;
 	}
-- 
2.43.0


From 55895b35e0679a497d59ac709a2c9a9067faf8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:37 +0000
Subject: [PATCH 10/57] fix: collection keeps every generation of a grown hash
 table that is still referred to

---
 discrete_src/vm/gc.cpp        | 7 +++++--
 discrete_src/vm/gc_object.cpp | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index cb261dc..c514f53 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -79,11 +79,14 @@ void WRContext::markReferred( WRValue* s )
 	{
 		if ( a->m_type == SV_HASH_INTERNAL )
 		{
-			if ( a == s->vb && IS_CONTAINER_MEMBER(s->xtype) && !(a->m_flags & GCFlag_Marked) )
+			WRValue* data = (WRValue*)(a + 1);
+			WRValue* entry = (a == s->vb) ? data + DECODE_ARRAY_ELEMENT_FROM_P2(s->p2) : s->r;
+
+			if ( entry >= data && entry < data + (a->m_mod << 1) )
 			{
 				// if the table has since grown its entries refer to their new location
 				a->m_flags |= GCFlag_Marked;
-				markReferred( (WRValue*)(a + 1) + DECODE_ARRAY_ELEMENT_FROM_P2(s->p2) );
+				markReferred( entry );
 			}
 		}
 		else if ( (a->m_type == SV_VALUE || a->m_type == SV_HASH_TABLE) && !(a->m_flags & GCFlag_Marked) )
diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index 5a0eca0..84dd34b 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -275,6 +275,7 @@ tryAgain:
 
 		// accepted, link it into the existing table
 		base->m_type = SV_HASH_INTERNAL;
+		base->m_mod = newMod;
 
 		base->m_nextGC = m_nextGC;
 		m_nextGC = base;
-- 
2.43.0


From 1d5dda00aa4b9359395c3ea0222179fccc13daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:37 +0000
Subject: [PATCH 11/57] fix: an array element that is gone reads as zero, not
 as whatever was read last

---
 discrete_src/vm/operations.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index 0b49edf..a49726f 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -173,6 +173,10 @@ WRValue& WRValue::deref() const
 			s_temp2.ui = (uint32_t)(unsigned char)r->va->m_Cdata[s];
 		}
 	}
+	else
+	{
+		s_temp2.ui = 0; // an element that no longer exists reads as zero
+	}
 
 	return s_temp2;
 }
-- 
2.43.0


From df58798bac9fa2a7bf2c13eec6e75ab975d78eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 12/57] fix: destroying a context frees its data whatever the
 collection threshold is

---
 discrete_src/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index cb7a3a7..8669a12 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -485,7 +485,7 @@ void wr_destroyContextEx( WRContext* context )
 {
 	// g_free all memory allocations by forcing the gc to collect everything
 	context->globals = 0;
-	context->allocatedMemoryHint = (uint16_t)-1;
+	context->allocatedMemoryHint = (uint32_t)-1;
 	context->gc( 0 );
 
 	wr_freeGCChain( context->registry.m_nextGC );
-- 
2.43.0


From ae7a38ee6eb02ddf922f7da7d1c6675dc6575715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 13/57] fix: a task that completes inside addThread is released
 like any other finished task

---
 discrete_src/vm/scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discrete_src/vm/scheduler.cpp b/discrete_src/vm/scheduler.cpp
index 392d66a..15ac88d 100644
--- a/discrete_src/vm/scheduler.cpp
+++ b/discrete_src/vm/scheduler.cpp
@@ -108,6 +108,7 @@ int WrenchScheduler::addThread( const uint8_t* byteCode, const int size, const i
 	}
 	else if ( !wr_getYieldInfo(context) )
 	{
+		wr_destroyContext( context );
 		return 0; // task ran to completion there was no need to yield
 	}
 
-- 
2.43.0


From 58c7d4dd9876863c6fcc7b0b2a2304361e6bce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:12 +0000
Subject: [PATCH 14/57] fix: a library call whose result is dropped starts with
 a clean return slot

---
 discrete_src/vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 641a5c8..1cfe745 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1117,6 +1117,8 @@ callFunction:
 
 			CASE(CallLibFunctionAndPop):
 			{
+				stackTop->init(); // a library may collect, this slot must not hold what was left there
+
 				args = READ_8_FROM_PC(pc++); // which have already been pushed
 
 				if ( ! ((register1 = w->globalRegistry.getAsRawValueHashTable(READ_32_FROM_PC(pc)))->lcb) )
-- 
2.43.0


From ebaec81c16013f7c52c9c504271c3d3446868527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:12 +0000
Subject: [PATCH 15/57] fix: an error of another context run by a host function
 does not stop the caller

---
 discrete_src/vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 1cfe745..f943727 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -938,6 +938,7 @@ debugReturn:
 				else
 				{
 					register1->ccb( context, stackTop - args, args, *stackTop, register1->usr );
+					w->err = WR_ERR_None; // the host might have run something else that failed
 				}
 
 				// DO care about return value, which will be at the top
@@ -1001,6 +1002,7 @@ newObjOut:
 				else
 				{
 					register1->ccb( context, stackTop - args, args, *stackTop, register1->usr );
+					w->err = WR_ERR_None; // the host might have run something else that failed
 				}
 
 CallFunctionByHashAndPop_continue:
-- 
2.43.0


From 1b9e33384373492cb4cdda39cfd9a8820378bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:12 +0000
Subject: [PATCH 16/57] fix: calling imported code does not give the caller a
 new slice

---
 discrete_src/vm/vm.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index f943727..d23f7f2 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -302,6 +302,36 @@ WRValue* wr_continue( WRContext* context )
 	return wr_callFunction( context, (WRFunction*)0, context->yield_argv, context->yield_argn );
 }
 
+//------------------------------------------------------------------------------
+static WRValue* callImported( WRContext* context, WRContext* import, WRFunction* function, WRValue* stackTop, const int args )
+{
+	uint16_t savedOffset = import->stackOffset;
+	import->stackOffset = (uint16_t)(stackTop - context->stack);
+
+#ifdef WRENCH_TIME_SLICES
+	WRState* w = context->w;
+	const bool yieldEnabled = w->yieldEnabled;
+	const int sliceInstructionCount = w->sliceInstructionCount;
+#endif
+
+	WRValue* ret = wr_callFunction( import, function, stackTop - args, args );
+
+#ifdef WRENCH_TIME_SLICES
+	if ( yieldEnabled )
+	{
+		// the caller goes on with what was left of its own slice
+		w->yieldEnabled = true;
+		if ( w->sliceInstructionCount < 1 || w->sliceInstructionCount > sliceInstructionCount )
+		{
+			w->sliceInstructionCount = sliceInstructionCount;
+		}
+	}
+#endif
+
+	import->stackOffset = savedOffset;
+	return ret;
+}
+
 //------------------------------------------------------------------------------
 WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValue* argv, const int argn )
 {
@@ -880,10 +910,7 @@ debugReturn:
 								if ( (I = import->registry.exists(fhash, false)) )
 								{
 									// import shares our stack, tell it where to find it's args
-									uint16_t savedOffset = import->stackOffset;
-									import->stackOffset = (uint16_t)(stackTop - context->stack);
-									register0 = wr_callFunction( import, I->wrf, stackTop - args, args );
-									import->stackOffset = savedOffset;
+									register0 = callImported( context, import, I->wrf, stackTop, args );
 									if ( import->yield_pc )
 									{
 										w->err = WR_ERR_cannot_call_function_context_yielded;
@@ -976,10 +1003,7 @@ newObjOut:
 								if ( (register0 = import->registry.exists(fhash, false)) )
 								{
 									// import shares our stack, tell it where to find it's args
-									uint16_t savedOffset = import->stackOffset;
-									import->stackOffset = (uint16_t)(stackTop - context->stack);
-									register0 = wr_callFunction( import, register0->wrf, stackTop - args, args );
-									import->stackOffset = savedOffset;
+									register0 = callImported( context, import, register0->wrf, stackTop, args );
 									if ( import->yield_pc )
 									{
 										w->err = WR_ERR_cannot_call_function_context_yielded;
-- 
2.43.0


From 3254259e3cd27f1ee609e3cd4c4959073ec19248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:17 +0000
Subject: [PATCH 17/57] fix: imports of an import are released with it, whether
 or not it succeeded

---
 discrete_src/utils/utils.cpp | 37 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 8669a12..84513f5 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -25,6 +25,7 @@ SOFTWARE.
 #include "wrench.h"
 
 void wr_destroyContextEx( WRContext* context );
+static void wr_destroyImports( WRContext* context );
 
 WR_ALLOC g_malloc = &malloc;
 WR_FREE g_free = &free;
@@ -394,19 +395,22 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
+		wr_destroyImports( import );
 		wr_destroyContextEx( import );
 		return 0;
 	}
 
-	import->imported = context->imported;
-	context->imported = import;
-
-	// make this a circular linked list
-	if ( import->imported == 0 )
+	// the import might have imports of its own by now, they join the list with it
+	WRContext* last = import;
+	while( last->imported && last->imported != import )
 	{
-		import->imported = context;
+		last = last->imported;
 	}
 
+	// make this a circular linked list
+	last->imported = context->imported ? context->imported : context;
+	context->imported = import;
+
 	return import;
 }
 
@@ -500,6 +504,18 @@ void wr_destroyContextEx( WRContext* context )
 	g_free( context );
 }
 
+//------------------------------------------------------------------------------
+static void wr_destroyImports( WRContext* context )
+{
+	while( context->imported )
+	{
+		WRContext* next = context->imported->imported;
+		wr_destroyContextEx( context->imported );
+
+		context->imported = next == context ? 0 : next; // the list is circular, stop here!
+	}
+}
+
 //------------------------------------------------------------------------------
 void wr_destroyContext( WRContext* context )
 {
@@ -524,14 +540,7 @@ void wr_destroyContext( WRContext* context )
 				context->w->contextList = (WRContext*)context->w->contextList->nextStateContextLink;
 			}
 
-			while( context->imported )
-			{
-				WRContext* next = context->imported->imported;
-				wr_destroyContextEx( context->imported );
-
-				context->imported = next == context ? 0 : next; // the list is circular, stop here!
-			}
-
+			wr_destroyImports( context );
 			wr_destroyContextEx( context );
 
 			break;
-- 
2.43.0


From 7a98dc6d642a8cee145480fa180f967e79edcc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:37 +0000
Subject: [PATCH 18/57] fix: code run above its importer on a shared stack
 respects the end of that stack

---
 discrete_src/vm/vm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index d23f7f2..1da5e76 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -708,7 +708,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
-	WRValue* stackLimit = stackBase + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
+	WRValue* stackLimit = context->stack + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
 #endif
 
 	if ( context->yield_pc )
-- 
2.43.0


From 575b41c03cd37ae4319808673ea3efa222bc2e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:43 +0000
Subject: [PATCH 19/57] fix: a script and its imports, which can hold each
 other's data, are collected together

---
 discrete_src/utils/utils.cpp |  13 +++-
 discrete_src/vm/gc.cpp       | 130 ++++++++++++++++++++++-------------
 discrete_src/wrench.h        |   3 +
 3 files changed, 97 insertions(+), 49 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 84513f5..95ada31 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -392,6 +392,9 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	import->stackOffset = context->stackOffset;
+	import->stackRoot = context->stackOffset;
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
@@ -402,8 +405,16 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 
 	// the import might have imports of its own by now, they join the list with it
 	WRContext* last = import;
-	while( last->imported && last->imported != import )
+	for(;;)
 	{
+		last->stackOffset = context->stackRoot;
+		last->stackRoot = context->stackRoot;
+
+		if ( !last->imported || last->imported == import )
+		{
+			break;
+		}
+
 		last = last->imported;
 	}
 
diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index c514f53..7016a43 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -75,38 +75,45 @@ void WRContext::markReferred( WRValue* s )
 		return;
 	}
 
-	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+	WRContext* c = this;
+	do
 	{
-		if ( a->m_type == SV_HASH_INTERNAL )
+		for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
 		{
-			WRValue* data = (WRValue*)(a + 1);
-			WRValue* entry = (a == s->vb) ? data + DECODE_ARRAY_ELEMENT_FROM_P2(s->p2) : s->r;
-
-			if ( entry >= data && entry < data + (a->m_mod << 1) )
+			if ( a->m_type == SV_HASH_INTERNAL )
 			{
-				// if the table has since grown its entries refer to their new location
-				a->m_flags |= GCFlag_Marked;
-				markReferred( entry );
+				WRValue* data = (WRValue*)(a + 1);
+				WRValue* entry = (a == s->vb) ? data + DECODE_ARRAY_ELEMENT_FROM_P2(s->p2) : s->r;
+
+				if ( entry >= data && entry < data + (a->m_mod << 1) )
+				{
+					// if the table has since grown its entries refer to their new location
+					a->m_flags |= GCFlag_Marked;
+					markReferred( entry );
+				}
 			}
-		}
-		else if ( (a->m_type == SV_VALUE || a->m_type == SV_HASH_TABLE) && !(a->m_flags & GCFlag_Marked) )
-		{
-			const WRValue* data = ((WRGCObject*)a)->m_Vdata;
-			const void* begin = data;
-			const void* end = data + ((WRGCObject*)a)->m_size;
-
-			if ( a->m_type == SV_HASH_TABLE )
+			else if ( (a->m_type == SV_VALUE || a->m_type == SV_HASH_TABLE) && !(a->m_flags & GCFlag_Marked) )
 			{
-				begin = (const WRGCBase*)data - 1; // table has its own header
-				end = data + (((WRGCObject*)a)->m_mod << 1);
-			}
-
-			if ( (const void*)s->r >= begin && (const void*)s->r < end )
-			{
-				markBase( a );
+				const WRValue* data = ((WRGCObject*)a)->m_Vdata;
+				const void* begin = data;
+				const void* end = data + ((WRGCObject*)a)->m_size;
+
+				if ( a->m_type == SV_HASH_TABLE )
+				{
+					begin = (const WRGCBase*)data - 1; // table has its own header
+					end = data + (((WRGCObject*)a)->m_mod << 1);
+				}
+
+				if ( (const void*)s->r >= begin && (const void*)s->r < end )
+				{
+					markBase( a );
+				}
 			}
 		}
-	}
+
+		c = c->imported; // might belong to code imported by, or importing this
+
+	} while( c && c != this );
 }
 
 //------------------------------------------------------------------------------
@@ -130,34 +137,16 @@ void WRContext::mark( WRValue* s )
 }
 
 //------------------------------------------------------------------------------
-void WRContext::gc( WRValue* stackTop )
+void WRContext::markRoots()
 {
-	if ( allocatedMemoryHint < w->allocatedMemoryLimit )
-	{
-		return;
-	}
-
-	allocatedMemoryHint = 0;
-
 	// mark permenants
-	if ( stackTop ) // zero stacktop means collect EVERYTHING
+	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
 	{
-		for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+		if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
 		{
-			if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
-			{
-				markBase( a );
-			}
-		}
-
-		// mark stack
-		for( WRValue* s=stack + stackOffset; s<stackTop; ++s)
-		{
-			mark( s );
-			markReferred( s );
+			markBase( a );
 		}
 	}
-	
 
 	// mark context's globals
 	WRValue* globalSpace = (WRValue *)(this + 1); // globals are allocated directly after this context
@@ -166,8 +155,13 @@ void WRContext::gc( WRValue* stackTop )
 	{
 		mark( globalSpace );
 	}
+}
+
+//------------------------------------------------------------------------------
+void WRContext::sweep()
+{
+	allocatedMemoryHint = 0;
 
-	// sweep
 	WRGCBase* current = svAllocated;
 	WRGCBase* prev = 0;
 	while( current )
@@ -200,6 +194,46 @@ void WRContext::gc( WRValue* stackTop )
 	}
 }
 
+//------------------------------------------------------------------------------
+void WRContext::gc( WRValue* stackTop )
+{
+	if ( allocatedMemoryHint < w->allocatedMemoryLimit )
+	{
+		return;
+	}
+
+	if ( !stackTop ) // zero stacktop means collect EVERYTHING
+	{
+		sweep();
+		return;
+	}
+
+	// a context and its imports share a stack and can refer to each others
+	// objects, so they are always collected together
+	WRContext* c = this;
+	do
+	{
+		c->markRoots();
+		c = c->imported;
+
+	} while( c && c != this );
+
+	// mark stack
+	for( WRValue* s=stack + stackRoot; s<stackTop; ++s)
+	{
+		mark( s );
+		markReferred( s );
+	}
+
+	c = this;
+	do
+	{
+		c->sweep();
+		c = c->imported;
+
+	} while( c && c != this );
+}
+
 //------------------------------------------------------------------------------
 WRGCObject* WRContext::getSVA( int size, WRGCObjectType type, bool init )
 {
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index 702a683..64f8255 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1146,6 +1146,7 @@ struct WRContext
 	uint8_t yield_argn;
 	uint8_t yieldArgs;
 	uint16_t stackOffset;
+	uint16_t stackRoot; // where the part of the stack this context shares with its imports starts
 
 	WRFunction* localFunctions;
 	uint8_t numLocalFunctions;
@@ -1160,6 +1161,8 @@ struct WRContext
 	void mark( WRValue* s );
 	void markReferred( WRValue* s );
 	void gc( WRValue* stackTop );
+	void markRoots();
+	void sweep();
 
 	WRGCObject* getSVA( int size, WRGCObjectType type, bool init );
 };
-- 
2.43.0


From cb95654b5cc54a77ebb425d2e7ac9d3c43c56089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:35 +0000
Subject: [PATCH 20/57] fix: importing from a script neither overwrites its
 stack, refreshes its slice nor leaks a refused image

---
 discrete_src/lib/std_sys.cpp | 42 ++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_sys.cpp b/discrete_src/lib/std_sys.cpp
index d29774e..a5667ec 100644
--- a/discrete_src/lib/std_sys.cpp
+++ b/discrete_src/lib/std_sys.cpp
@@ -45,6 +45,44 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 	}
 }
 
+//------------------------------------------------------------------------------
+static void importFromScript( WRValue* stackTop, WRContext* c, uint8_t* block, const int len )
+{
+	// the importing script is in the middle of running, stay clear of its stack
+	const uint16_t savedOffset = c->stackOffset;
+	c->stackOffset = (uint16_t)((stackTop + 1) - c->stack);
+
+#ifdef WRENCH_TIME_SLICES
+	// and it goes on with what was left of its own slice
+	const int yieldEnabled = c->w->yieldEnabled;
+	const int sliceInstructionCount = c->w->sliceInstructionCount;
+#endif
+
+	WRContext* import = wr_import( c, block, len );
+
+#ifdef WRENCH_TIME_SLICES
+	if ( yieldEnabled )
+	{
+		c->w->yieldEnabled = yieldEnabled;
+		if ( c->w->sliceInstructionCount < 1 || c->w->sliceInstructionCount > sliceInstructionCount )
+		{
+			c->w->sliceInstructionCount = sliceInstructionCount;
+		}
+	}
+#endif
+
+	c->stackOffset = savedOffset;
+
+	if ( import )
+	{
+		import->flags |= (uint8_t)WRC_OwnsMemory;
+	}
+	else
+	{
+		g_free( block );
+	}
+}
+
 //------------------------------------------------------------------------------
 void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 {
@@ -59,7 +97,7 @@ void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 			if(!import) { g_mallocFailed = true; return; }
 #endif
 			memcpy( (char*)import, data, len );
-			wr_import( c, import, len, true );
+			importFromScript( stackTop, c, import, len );
 		}
 		else
 		{
@@ -81,7 +119,7 @@ void wr_importCompile( WRValue* stackTop, const int argn, WRContext* c )
 			int outlen;
 			if ( (stackTop->i = wr_compile(data, len, &out, &outlen)) == WR_ERR_None )
 			{
-				wr_import( c, out, outlen, true );
+				importFromScript( stackTop, c, out, outlen );
 			}
 		}
 	}
-- 
2.43.0


From dff3b458cd82d1ab4c295707cf5de0cf4bd2db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:23 +0000
Subject: [PATCH 21/57] fix: imported code that tries to suspend is reported
 and not continued by the next call

---
 discrete_src/utils/utils.cpp |  5 +++++
 discrete_src/vm/vm.cpp       | 20 ++++++++++----------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 95ada31..2a24291 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -398,6 +398,11 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
+		if ( import->yield_pc )
+		{
+			context->w->err = WR_ERR_cannot_call_function_context_yielded;
+		}
+
 		wr_destroyImports( import );
 		wr_destroyContextEx( import );
 		return 0;
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 1da5e76..0948597 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -329,6 +329,16 @@ static WRValue* callImported( WRContext* context, WRContext* import, WRFunction*
 #endif
 
 	import->stackOffset = savedOffset;
+
+	if ( import->yield_pc )
+	{
+		// cannot be continued from here, so it must not be continued by the next call either
+		import->yield_pc = 0;
+		import->flags &= ~(uint8_t)WRC_ForceYielded;
+		context->w->err = WR_ERR_cannot_call_function_context_yielded;
+		return 0;
+	}
+
 	return ret;
 }
 
@@ -911,11 +921,6 @@ debugReturn:
 								{
 									// import shares our stack, tell it where to find it's args
 									register0 = callImported( context, import, I->wrf, stackTop, args );
-									if ( import->yield_pc )
-									{
-										w->err = WR_ERR_cannot_call_function_context_yielded;
-										return 0;
-									}
 									if ( !register0 )
 									{
 										return 0;
@@ -1004,11 +1009,6 @@ newObjOut:
 								{
 									// import shares our stack, tell it where to find it's args
 									register0 = callImported( context, import, register0->wrf, stackTop, args );
-									if ( import->yield_pc )
-									{
-										w->err = WR_ERR_cannot_call_function_context_yielded;
-										return 0;
-									}
 									if ( !register0 )
 									{
 										return 0;
-- 
2.43.0


From 4d76427f9168b68a6938b448f79db1b14328c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:44 +0000
Subject: [PATCH 22/57] fix: a loop that only discards data gives it back

---
 discrete_src/vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 0948597..2142189 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1485,6 +1485,7 @@ hashIndexJump:
 			CASE(RelativeJump):
 			{
 				pc += READ_16_FROM_PC(pc);
+				context->gc( stackTop ); // loops come through here, a good time to collect what they discarded
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
@@ -1492,6 +1493,7 @@ hashIndexJump:
 			CASE(RelativeJump8):
 			{
 				pc += (int8_t)READ_8_FROM_PC(pc);
+				context->gc( stackTop );
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
-- 
2.43.0


From 357b3179e59b76d890d854f65991bde9aa6ef522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:48 +0000
Subject: [PATCH 23/57] fix: a name that ends in :: is refused without reading
 outside it

---
 discrete_src/cc/cc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index f4ea5f8..1de8142 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -261,7 +261,7 @@ bool WRCompilationContext::isValidLabel( WRstr& token, bool& isGlobal, WRstr& pr
 		}
 	}
 
-	if ( foundColon && token[token.size() - 1] == ':' )
+	if ( foundColon && (!token.size() || token[token.size() - 1] == ':') )
 	{
 		return false;
 	}
-- 
2.43.0


From 6ee255d23c46951d1e306e639e2d5bea3cc4f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:34 +0000
Subject: [PATCH 24/57] fix: a compile refused for its goto gives back what
 linking had allocated

---
 discrete_src/cc/link.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/discrete_src/cc/link.cpp b/discrete_src/cc/link.cpp
index 8bba852..4a0c867 100644
--- a/discrete_src/cc/link.cpp
+++ b/discrete_src/cc/link.cpp
@@ -71,6 +71,17 @@ void WRCompilationContext::createLocalHashMap( WRUnitContext& unit, unsigned cha
 	}
 }
 
+//------------------------------------------------------------------------------
+static void freeNamespaceLookups( NamespacePush* lookups )
+{
+	while( lookups )
+	{
+		NamespacePush* next = lookups->next;
+		g_free( lookups );
+		lookups = next;
+	}
+}
+
 //------------------------------------------------------------------------------
 void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t compilerOptionFlags )
 {
@@ -275,6 +286,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 						if ( diff < -32768 || diff > 32767 )
 						{
 							m_err = WR_ERR_bad_goto_location;
+							freeNamespaceLookups( namespaceLookups );
 							return;
 						}
 						*m_units[u].bytecode.all.p_str( m_units[u].bytecode.gotoSource[g].offset ) = (unsigned char)O_RelativeJump;
@@ -288,6 +300,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 			if ( j >= m_units[u].bytecode.jumpOffsetTargets.count() )
 			{
 				m_err = WR_ERR_goto_target_not_found;
+				freeNamespaceLookups( namespaceLookups );
 				return;
 			}
 		}
-- 
2.43.0


From 7b3ad4cebe201d357e464c3b1268376b8845bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:37 +0000
Subject: [PATCH 25/57] fix: a failed allocation leaves valid values behind,
 stops the script at once, and leaks nothing

---
 discrete_src/lib/std_container.cpp | 21 ++++++++++++++++-----
 discrete_src/lib/std_serialize.cpp |  1 +
 discrete_src/utils/serializer.cpp  |  2 +-
 discrete_src/utils/serializer.h    | 11 +++++++----
 discrete_src/vm/gc.cpp             |  9 +++++++++
 discrete_src/vm/gc_object.cpp      | 15 ++++++++++++++-
 discrete_src/vm/index.cpp          | 10 ++++++++++
 discrete_src/vm/vm.cpp             | 19 ++++++++++++++++---
 8 files changed, 74 insertions(+), 14 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 7e6b9fe..332bd62 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -184,11 +184,17 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+bool wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( A->va->m_size != originalSize + count )
+	{
+		return false;
+	}
+#endif
 
 	// move tail of array UP "count" entries
 	unsigned int entries = originalSize - where;
@@ -206,6 +212,7 @@ void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int
 	}
 
 	c->gc( stackTop + 1 );
+	return true;
 }
 
 //------------------------------------------------------------------------------
@@ -282,8 +289,10 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	const unsigned int where = A->va->m_size;
 
-	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1].deref();
+	if ( wr_arrayInsertEx(A, where, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[where] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
@@ -297,8 +306,10 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 		return;
 	}
 
-	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1].deref();
+	if ( wr_arrayInsertEx(A, 0, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[0] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/discrete_src/lib/std_serialize.cpp b/discrete_src/lib/std_serialize.cpp
index 37edd51..b0eeda7 100644
--- a/discrete_src/lib/std_serialize.cpp
+++ b/discrete_src/lib/std_serialize.cpp
@@ -37,6 +37,7 @@ void wr_stdSerialize( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
 			{
+				g_free( buf );
 				return;
 			}
 #endif
diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 3fc82fe..a7b2a38 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -253,7 +253,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 bool wr_serialize( char** buf, int* len, const WRValue& value )
 {
 	WRValueSerializer S;
-	if ( !wr_serializeEx(S, value) )
+	if ( !wr_serializeEx(S, value) || S.failed() )
 	{
 		return false;
 	}
diff --git a/discrete_src/utils/serializer.h b/discrete_src/utils/serializer.h
index 1188d71..6cf1025 100644
--- a/discrete_src/utils/serializer.h
+++ b/discrete_src/utils/serializer.h
@@ -38,8 +38,8 @@ class WRValueSerializer
 {
 public:
 	
-	WRValueSerializer() : m_pos(0), m_size(0), m_buf(0) {}
-	WRValueSerializer( const char* data, const unsigned int size ) : m_pos(0), m_size(size)
+	WRValueSerializer() : m_failed(false), m_pos(0), m_size(0), m_buf(0) {}
+	WRValueSerializer( const char* data, const unsigned int size ) : m_failed(false), m_pos(0), m_size(size)
 	{
 		m_buf = (char*)g_malloc(size);
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -67,6 +67,7 @@ public:
 		m_buf = 0;
 	}
 	
+	bool failed() const { return m_failed; }
 	int size() const { return m_pos; }
 	const char* data() const { return m_buf; }
 
@@ -96,15 +97,16 @@ public:
 
 		if ( m_pos + size >= m_size )
 		{
-			m_size += (size*2) + 8;
-			char* newBuf = (char*)g_malloc( m_size );
+			char* newBuf = m_failed ? 0 : (char*)g_malloc( m_size + (size*2) + 8 );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !newBuf )
 			{
+				m_failed = true;
 				g_mallocFailed = true;
 				return;
 			}
 #endif
+			m_size += (size*2) + 8;
 			if ( m_pos > 0 )
 			{
 				memcpy( newBuf, m_buf, m_pos );
@@ -119,6 +121,7 @@ public:
 
 private:
 
+	bool m_failed; // ran out of memory, what was written is not complete
 	unsigned int m_pos;
 	unsigned int m_size;
 	char* m_buf;
diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 7016a43..0d68fb4 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -253,6 +253,15 @@ WRGCObject* WRContext::getSVA( int size, WRGCObjectType type, bool init )
 
 	allocatedMemoryHint += ret->init( size, type, init ) + sizeof(WRGCObject);
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !ret->m_Vdata ) // got the object but not the data for it
+	{
+		svAllocated = ret->m_nextGC;
+		g_free( ret );
+		return 0;
+	}
+#endif
+
 	if ( (int)type >= SV_VALUE )
 	{
 		ret->m_creatorContext = this;
diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index 84dd34b..2177acb 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -217,6 +217,10 @@ tryAgain:
 			newSize = newMod << 1;
 		}
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		newSize += 2; // spare entry, for when a key needs the table to grow and it can't
+#endif
+
 		newSize *= sizeof(WRValue);
 		newSize += sizeof(WRGCBase);
 	
@@ -231,7 +235,16 @@ tryAgain:
 		if ( !base )
 		{
 			g_mallocFailed = true;
-			return 0; // congradulations, clobber this one. we're dying it doesn't matter.
+
+			if ( m_mod )
+			{
+				// use the spare entry rather than overwriting one somebody relies on
+				WRValue* spare = m_Vdata + ((m_type == SV_VOID_HASH_TABLE) ? m_mod : (m_mod << 1));
+				spare->init();
+				(spare + 1)->init();
+			}
+
+			return m_mod;
 		}
 #endif
 
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 9f9e608..29e328a 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -101,6 +101,7 @@ void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 	if ( !value->va )
 	{
 		value->p2 = INIT_AS_INT;
+		target->init();
 		return;
 	}
 #endif
@@ -151,6 +152,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 				if ( !value->va )
 				{
 					value->p2 = INIT_AS_INT;
+					target->init();
 					return;
 				}
 #endif
@@ -163,6 +165,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 				if ( !value->va )
 				{
 					value->p2 = INIT_AS_INT;
+					target->init();
 					return;
 				}
 #endif
@@ -182,6 +185,12 @@ boundsFailed:
 			}
 
 			wr_growValueArray( value->va, index->ui );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+			if ( index->ui >= value->va->m_size )
+			{
+				goto boundsFailed;
+			}
+#endif
 		}
 
 		arrayElementToTarget( index->ui, target, value );
@@ -199,6 +208,7 @@ void doIndex_E_I( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 	if ( !V->va )
 	{
 		V->p2 = INIT_AS_INT;
+		target->init();
 		return;
 	}
 #endif
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 2142189..11b23e5 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -132,6 +132,7 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !stackTop->va )
 		{
+			stackTop->init();
 			return 0;
 		}
 #endif
@@ -839,6 +840,7 @@ yieldContinue:
 
 				if ( (stackTop->p2 & INIT_AS_LIB_CONST) != INIT_AS_LIB_CONST )
 				{
+					MALLOC_FAIL_CHECK;
 					w->err = WR_ERR_library_constant_not_loaded;
 					return 0;
 				}
@@ -855,6 +857,12 @@ yieldContinue:
 				register1 = &(stackTop - 1)->deref();
 				register1->p2 = INIT_AS_ARRAY;
 				register1->va = context->getSVA( register0->ui, SV_VALUE, true );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+				if ( !register1->va )
+				{
+					register1->init();
+				}
+#endif
 				context->gc( stackTop );
 				CONTINUE;
 			}
@@ -964,6 +972,7 @@ debugReturn:
 						}
 					}
 
+					MALLOC_FAIL_CHECK;
 					w->err = WR_ERR_function_not_found;
 					return 0;
 				}
@@ -1020,6 +1029,7 @@ newObjOut:
 						}
 					}
 
+					MALLOC_FAIL_CHECK;
 					w->err = WR_ERR_function_not_found;
 					return 0;
 				}
@@ -1108,6 +1118,7 @@ callFunction:
 
 				if ( ! ((register1 = w->globalRegistry.getAsRawValueHashTable(READ_32_FROM_PC(pc)))->lcb) )
 				{
+					MALLOC_FAIL_CHECK;
 					w->err = WR_ERR_lib_function_not_found;
 					return 0;
 				}
@@ -1149,6 +1160,7 @@ callFunction:
 
 				if ( ! ((register1 = w->globalRegistry.getAsRawValueHashTable(READ_32_FROM_PC(pc)))->lcb) )
 				{
+					MALLOC_FAIL_CHECK;
 					w->err = WR_ERR_lib_function_not_found;
 					return 0;
 				}
@@ -1395,6 +1407,7 @@ hashIndexJump:
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !register0->va )
 					{
+						register0->init();
 						CONTINUE;
 					}
 #endif
@@ -2640,7 +2653,7 @@ compactCompareGG8:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				wr_AdditionBinary[(register0->type<<2)|register1->type]( register0, register1, stackTop++ );
 				CHECK_STACK;
-				FASTCONTINUE;
+				CONTINUE;
 			}
 
 			CASE(GLBinaryAddition):
@@ -2649,7 +2662,7 @@ compactCompareGG8:
 				register0 = globalSpace + READ_8_FROM_PC(pc++); 
 				wr_AdditionBinary[(register0->type<<2)|register1->type]( register0, register1, stackTop++ );
 				CHECK_STACK;
-				FASTCONTINUE;
+				CONTINUE;
 			}
 
 			CASE(LLBinaryAddition):
@@ -2658,7 +2671,7 @@ compactCompareGG8:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				wr_AdditionBinary[(register0->type<<2)|register1->type]( register0, register1, stackTop++ );
 				CHECK_STACK;
-				FASTCONTINUE;
+				CONTINUE;
 			}
 
 			
-- 
2.43.0


From 87b6c8713382783016ad238f5629535a7d5dc843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:00 +0000
Subject: [PATCH 26/57] fix: every push is checked against the stack's end,
 arguments from the host included

---
 discrete_src/utils/utils.cpp |  7 +++++++
 discrete_src/vm/vm.cpp       | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 2a24291..749ed7c 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1102,6 +1102,13 @@ WRValue* wr_callFunction( WRContext* context, const int32_t hash, const WRValue*
 						return 0;
 					}
 
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+					if ( argn + 2 >= context->w->stackSize - (int)context->stackOffset )
+					{
+						context->w->err = WR_ERR_stack_overflow;
+						return 0;
+					}
+#endif
 					WRValue* stack = context->stack + context->stackOffset;
 					int a = 0;
 				for( ; a<argn; ++a )
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 11b23e5..d6716bd 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -755,6 +755,13 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+		if ( argn >= (stackLimit - stackTop) - 1 ) // room for the arguments and the return value?
+		{
+			w->err = WR_ERR_stack_overflow;
+			return 0;
+		}
+#endif
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
@@ -996,8 +1003,8 @@ CallFunctionByHash_continue:
 					++stackTop;
 				}
 				
-				CHECK_STACK;
 newObjOut:
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1182,6 +1189,7 @@ callFunction:
 			{
 				wr_newObjectTable( context, stackTop++, pc, 0 );
 				pc += 2;
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1383,6 +1391,7 @@ callFunction:
 			{
 				register0 = &(globalSpace + READ_8_FROM_PC(pc++))->deref();
 				register1 = stackTop++;
+				CHECK_STACK;
 				goto hashIndexJump;
 			}
 
@@ -1390,6 +1399,7 @@ callFunction:
 			{
 				register0 = &(frameBase + READ_8_FROM_PC(pc++))->deref();
 				register1 = stackTop++;
+				CHECK_STACK;
 				goto hashIndexJump;
 			}
 
@@ -1575,6 +1585,7 @@ indexLiteral:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -2318,6 +2329,7 @@ compactReturnCompareEQ:
 compactReturnCompareEQPost:
 				stackTop->i = (int)wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
@@ -2333,6 +2345,7 @@ compactReturnCompareNE:
 compactReturnCompareNEPost:
 				stackTop->i = (int)!wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
-- 
2.43.0


From 427fa6aabf9fdb0491dac961c35b9d312a2c5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:34 +0000
Subject: [PATCH 27/57] fix: hash tables with a few hundred mixed keys no
 longer run out of table sizes

---
 discrete_src/vm/gc_object.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index 2177acb..8b35255 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -71,6 +71,14 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	return ret;
 }
 
+//------------------------------------------------------------------------------
+// how far to the next entry to try after a collision, a key that falls into a
+// densely filled part of the table should not have to try its neighbors
+inline uint32_t wr_hashStep( const uint32_t hash, const uint32_t mod )
+{
+	return mod > 2 ? 1 + ((hash >> 8) % (mod - 1)) : 1;
+}
+
 //------------------------------------------------------------------------------
 WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 {
@@ -80,11 +88,12 @@ WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 	int i = hash % m_mod;
 	if ( m_hashTable[i] != hash )
 	{
-		if ( m_hashTable[(i = (i + 1) % m_mod)] != hash )
+		const uint32_t step = wr_hashStep( hash, m_mod );
+		if ( m_hashTable[(i = (i + step) % m_mod)] != hash )
 		{
-			if ( m_hashTable[(i = (i + 1) % m_mod)] != hash )
+			if ( m_hashTable[(i = (i + step) % m_mod)] != hash )
 			{
-				if ( m_hashTable[(i = (i + 1) % m_mod)] != hash )
+				if ( m_hashTable[(i = (i + step) % m_mod)] != hash )
 				{
 					i = getIndexOfHit(hash, true);
 				}
@@ -104,10 +113,11 @@ WRValue* WRGCObject::exists( const uint32_t hash, bool removeIfPresent )
 
 	if ( m_hashTable[index] != hash )
 	{
+		const uint32_t step = wr_hashStep( hash, m_mod );
 		int tries = 3;
 		do
 		{
-			index = (index + 1) % m_mod;
+			index = (index + step) % m_mod;
 			if ( m_hashTable[index] == hash )
 			{
 				goto foundExists;
@@ -170,6 +180,7 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 		return index; // immediate hits should be cheap
 	}
 
+	const uint32_t step = wr_hashStep( hash, m_mod );
 	int tries = 3;
 	do
 	{
@@ -180,7 +191,7 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 			return index;
 		}
 
-		index = (index + 1) % m_mod;
+		index = (index + step) % m_mod;
 
 		if ( m_hashTable[index] == hash )
 		{
@@ -261,6 +272,12 @@ tryAgain:
 
 		for( unsigned int h=0; h<m_mod; ++h )
 		{
+			if ( m_hashTable[h] == WRENCH_NULL_HASH )
+			{
+				continue;
+			}
+
+			const uint32_t step = wr_hashStep( m_hashTable[h], newMod );
 			int tries = 3;
 			int newEntry = m_hashTable[h] % newMod;
 			for(;;)
@@ -272,7 +289,7 @@ tryAgain:
 				}
 				else if ( tries-- )
 				{
-					newEntry = (newEntry + 1) % newMod;
+					newEntry = (newEntry + step) % newMod;
 				}
 				else
 				{
-- 
2.43.0


From 43baae635cd38579c1395d7ac597eacd707b0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:43 +0000
Subject: [PATCH 28/57] fix: a serialized value comes back the same, and a
 damaged stream is refused without harm

---
 discrete_src/utils/serializer.cpp | 101 +++++++++++++++++++++---------
 discrete_src/utils/serializer.h   |   9 ++-
 discrete_src/vm/gc_object.cpp     |   5 ++
 3 files changed, 83 insertions(+), 32 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index a7b2a38..3390229 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -25,11 +25,16 @@ SOFTWARE.
 #include "wrench.h"
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const int depth )
 {
 	char temp;
 	uint16_t temp16;
 	uint32_t temp32;
+
+	if ( depth > WR_SERIALIZE_MAX_DEPTH )
+	{
+		return false;
+	}
 	
 	const WRValue& value = val.deref();
 
@@ -53,6 +58,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 			{
 				case WR_EX_ARRAY:
 				{
+					if ( value.va->m_size > 0xFFFF ) // does not fit the format
+					{
+						return false;
+					}
+
 					serializer.write( &(temp = value.va->m_type), 1 );
 					temp16 = wr_x16( value.va->m_size );
 					serializer.write( (char*)&temp16, 2 );
@@ -66,7 +76,7 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 					{
 						for( uint32_t i=0; i<value.va->m_size; ++i )
 						{
-							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i]) )
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i], depth + 1) )
 							{
 								return false;
 							}
@@ -91,8 +101,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							wr_serializeEx( serializer, value.va->m_Vdata[i<<1] );
-							wr_serializeEx( serializer, value.va->m_Vdata[(i<<1) + 1] );
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1], depth + 1)
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1], depth + 1) )
+							{
+								return false;
+							}
 						}
 					}
 
@@ -108,26 +121,32 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 }
 
 //------------------------------------------------------------------------------
-bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext* context )
+bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext* context, const int depth )
 {
 	char temp;
 	uint16_t temp16;
 
-	if ( !serializer.read(&temp , 1) )
+	value.init(); // never leave half a value behind
+
+	if ( depth > WR_SERIALIZE_MAX_DEPTH || !serializer.read(&temp , 1) )
 	{
 		return false;
 	}
 
-	value.p2 = (int)temp;
-
 	switch( (uint8_t)temp )
 	{
 		case WR_INT:
 		case WR_FLOAT:
 		{
-			bool ret = serializer.read( (char *)&value.ui, 4 );
-			value.ui = wr_x32( value.ui );
-			return ret;
+			uint32_t temp32;
+			if ( !serializer.read((char *)&temp32, 4) )
+			{
+				return false;
+			}
+
+			value.p2 = (int)temp;
+			value.ui = wr_x32( temp32 );
+			return true;
 		}
 
 		case WR_EX:
@@ -148,7 +167,11 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 					}
 
 					temp16 = wr_x16( temp16 );
-					value.p2 = INIT_AS_ARRAY;
+
+					if ( temp16 > serializer.remaining() ) // an element is at least a byte
+					{
+						return false;
+					}
 					
 					switch( (uint8_t)temp )
 					{
@@ -158,10 +181,11 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 							if ( !value.va )
 							{
-								value.p2 = INIT_AS_INT;
 								return false;
 							}
 #endif
+							value.p2 = INIT_AS_ARRAY;
+
 							if ( !serializer.read(value.va->m_SCdata, temp16) )
 							{
 								return false;
@@ -171,17 +195,18 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 
 						case SV_VALUE:
 						{
-							value.va = context->getSVA( temp16, SV_VALUE, false );
+							value.va = context->getSVA( temp16, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 							if ( !value.va )
 							{
-								value.p2 = INIT_AS_INT;
 								return false;
 							}
 #endif
+							value.p2 = INIT_AS_ARRAY;
+
 							for( uint16_t i=0; i<temp16; ++i )
 							{
-								if ( !wr_deserializeEx(value.va->m_Vdata[i], serializer, context) )
+								if ( !wr_deserializeEx(value.va->m_Vdata[i], serializer, context, depth + 1) )
 								{
 									return false;
 								}
@@ -202,17 +227,22 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 					}
 
 					temp16 = wr_x16( temp16 );
+
+					// there is at least a byte for each entry, and no table larger than the largest
+					if ( temp16 > serializer.remaining() || temp16 > 49157 )
+					{
+						return false;
+					}
 					
-					value.va = context->getSVA( temp16 - 1, SV_HASH_TABLE, false );
+					value.va = context->getSVA( temp16 ? temp16 - 1 : 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !value.va )
 					{
-						value.p2 = INIT_AS_INT;
 						return false;
 					}
 #endif
 					value.p2 = INIT_AS_HASH_TABLE;
-
+					value.va->m_size = 0; // that was a hint, nothing is in it yet
 
 					for( uint16_t i=0; i<temp16; ++i )
 					{
@@ -221,20 +251,25 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 							return false;
 						}
 
-						if ( !temp )
+						if ( temp )
 						{
-							value.va->m_Vdata[i<<1].init();
-							value.va->m_Vdata[(i<<1) + 1].init();
-							value.va->m_hashTable[i] = WRENCH_NULL_HASH;
-						}
-						else
-						{
-							if ( !wr_deserializeEx(value.va->m_Vdata[i<<1], serializer, context)
-								 || !wr_deserializeEx(value.va->m_Vdata[(i<<1)+1], serializer, context) )
+							WRValue item;
+							WRValue key;
+							if ( !wr_deserializeEx(item, serializer, context, depth + 1)
+								 || !wr_deserializeEx(key, serializer, context, depth + 1) )
 							{
 								return false;
 							}
-							value.va->m_hashTable[i] = value.va->m_Vdata[(i<<1)+1].getHash();
+
+							uint32_t entry = value.va->getIndexOfHit( key.getHash(), false );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+							if ( entry >= value.va->m_mod ) // it had to grow and could not
+							{
+								return false;
+							}
+#endif
+							value.va->m_Vdata[entry<<1] = item;
+							value.va->m_Vdata[(entry<<1) + 1] = key;
 						}
 					}
 					
@@ -266,5 +301,11 @@ bool wr_serialize( char** buf, int* len, const WRValue& value )
 bool wr_deserialize( WRContext* context, WRValue& value, const char* buf, const int len )
 {
 	WRValueSerializer S( buf, len );
-	return wr_deserializeEx( value, S, context );
+	if ( !wr_deserializeEx(value, S, context) )
+	{
+		value.init();
+		return false;
+	}
+
+	return true;
 }
diff --git a/discrete_src/utils/serializer.h b/discrete_src/utils/serializer.h
index 6cf1025..6acaa7d 100644
--- a/discrete_src/utils/serializer.h
+++ b/discrete_src/utils/serializer.h
@@ -30,8 +30,12 @@ struct WRContext;
 class WRValueSerializer;
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val );
-bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext* context );
+// values may be nested this deep and no deeper, one that contains itself has no end
+#define WR_SERIALIZE_MAX_DEPTH 200
+
+//------------------------------------------------------------------------------
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const int depth =0 );
+bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext* context, const int depth =0 );
 
 //------------------------------------------------------------------------------
 class WRValueSerializer
@@ -70,6 +74,7 @@ public:
 	bool failed() const { return m_failed; }
 	int size() const { return m_pos; }
 	const char* data() const { return m_buf; }
+	unsigned int remaining() const { return m_size - m_pos; } // left to read
 
 	bool read( char* data, const int size )
 	{
diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index 8b35255..7e4ce2e 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -356,6 +356,11 @@ tryAgain:
 
 		m_Vdata = newValues;
 
+		if ( hash != WRENCH_NULL_HASH )
+		{
+			++m_size; // it is in the table now
+		}
+
 		return getIndexOfHit( hash, true );
 	}
 }
-- 
2.43.0


From 55dcdade6365ad05388b4045ca3041a2d907c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:06 +0000
Subject: [PATCH 29/57] fix: file calls report what really happened, and leave
 no file open

---
 discrete_src/lib/std_io.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 1dd3387..f5a0be9 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -77,21 +77,23 @@ void wr_read_file( WRValue* stackTop, const int argn, WRContext* c )
 			FILE *infil = fopen( fileName, "rb" );
 			if ( infil )
 			{
-				stackTop->va = c->getSVA( (int)sbuf.st_size, SV_CHAR, false );
+				WRGCObject* va = c->getSVA( (int)sbuf.st_size, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-				if ( !stackTop->va )
+				if ( !va )
 				{
+					fclose( infil );
 					return;
 				}
 #endif
-				stackTop->p2 = INIT_AS_ARRAY;
-				if ( fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1 )
+				// all of it, or nothing
+				if ( fread(va->m_Cdata, 1, va->m_size, infil) == va->m_size )
 				{
-					return;
+					stackTop->va = va;
+					stackTop->p2 = INIT_AS_ARRAY;
 				}
-			}
 
-			fclose( infil );
+				fclose( infil );
+			}
 		}
 	}
 }
@@ -117,8 +119,11 @@ void wr_write_file( WRValue* stackTop, const int argn, WRContext* c )
 			return;
 		}
 
-		stackTop->i = (int)fwrite( data, len, 1, outfil );
-		fclose( outfil );
+		stackTop->i = (fwrite( data, 1, len, outfil ) == len) ? 1 : 0;
+		if ( fclose(outfil) )
+		{
+			stackTop->i = 0; // some of it was still buffered, and is not in the file
+		}
 	}
 }
 
@@ -127,7 +132,7 @@ void wr_delete_file( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn == 1 )
 	{
-		const char* filename = WRValue::MallocStrScoped(*(stackTop - 1));
+		WRValue::MallocStrScoped filename( *(stackTop - 1) );
 		if ( filename )
 		{
 #if defined(WRENCH_WIN32_FILE_IO)
@@ -147,9 +152,9 @@ void wr_getline( WRValue* stackTop, const int argn, WRContext* c )
 	int pos = 0;
 	for (;;)
 	{
-		int in = fgetc( stdin );
+		int in = (pos < 256) ? fgetc( stdin ) : EOF; // the rest of a long line is for next time
 
-		if ( in == EOF || in == '\n' || in == '\r' || pos >= 256 )
+		if ( in == EOF || in == '\n' || in == '\r' )
 		{ 
 			stackTop->va = c->getSVA( pos, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -275,17 +280,17 @@ void wr_ioWrite( WRValue* stackTop, const int argn, WRContext* c )
 		}
 		else if ( IS_RAW_ARRAY(data.xtype) )
 		{
-			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2);
+			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.p2);
 			if ( argn > 2 )
 			{
 				size = args[2].asInt();
 			}
 
 #if defined(WRENCH_WIN32_FILE_IO)
-			stackTop->i = _write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = _write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 #if defined(WRENCH_LINUX_FILE_IO)
-			stackTop->i = write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 		}
 	}
-- 
2.43.0


From 031ccc4d1215bc014c75eac18fe4bd3e148b064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:46 +0000
Subject: [PATCH 30/57] fix: tcp calls send the data they were given, report
 failure as failure and honor their time limit

---
 discrete_src/lib/std_tcp.cpp | 48 +++++++++++++++++++++++-------------
 discrete_src/utils/utils.cpp |  1 +
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 7f47f40..87f9615 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -329,7 +329,10 @@ int wr_connectTCPEx( const char* address, const int port )
 	memset( &location, 0, sizeof(location) );
 
 	char ret[21];
-	ipFromAddress( address, &location, ret );
+	if ( !ipFromAddress(address, &location, ret) )
+	{
+		return -1; // no such host
+	}
 	
 	location.sin_family = AF_INET;
 	location.sin_port = htons( port );
@@ -361,12 +364,11 @@ void wr_connectTCP( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* args = stackTop - argn;
 
 	char* address = args[0].asMallocString();
-	if ( !address || !address[0] )
+	stackTop->i = -1;
+	if ( address && address[0] )
 	{
-		return;
+		stackTop->i = wr_connectTCPEx( address, args[1].asInt() );
 	}
-
-	stackTop->i = wr_connectTCPEx( address, args[1].asInt() );
 	g_free( address );
 }
 
@@ -400,7 +402,11 @@ void wr_closeTCP( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 int wr_sendTCPEx( const int socket, const char* data, const int toSend )
 {
+#ifdef MSG_NOSIGNAL
+	return send( socket, data, toSend, MSG_NOSIGNAL ); // the other end may be gone, that is an error not a signal
+#else
 	return send( socket, data, toSend, 0 );
+#endif
 }
 
 //------------------------------------------------------------------------------
@@ -416,7 +422,7 @@ void wr_sendTCP( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* args = stackTop - argn;
 
 	unsigned int len;
-	char* data = args[0].asMallocString( &len );
+	char* data = args[1].asMallocString( &len );
 	if ( data )
 	{
 		stackTop->i = wr_sendTCPEx( args[0].asInt(), data, len );
@@ -435,8 +441,8 @@ int wr_receiveTCPEx( const int socket, char* data, const int toRead, const int t
 #endif
 #ifdef WRENCH_LINUX_TCP
 	struct timeval timeout;
-	timeout.tv_sec = timeoutMilliseconds;
-	timeout.tv_usec = 0;
+	timeout.tv_sec = timeoutMilliseconds / 1000;
+	timeout.tv_usec = (timeoutMilliseconds % 1000) * 1000;
 	setsockopt( socket, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout));
 	return read( socket, data, toRead );
 #endif
@@ -445,7 +451,7 @@ int wr_receiveTCPEx( const int socket, char* data, const int toRead, const int t
 //------------------------------------------------------------------------------
 void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 {
-	if ( argn < 2 )
+	if ( argn < 1 )
 	{
 		return;
 	}
@@ -457,18 +463,26 @@ void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 		toRead = args[1].asInt();
 	}
 
-	stackTop->va = c->getSVA( toRead, SV_CHAR, false );
-	stackTop->p2 = INIT_AS_ARRAY;
-
-	int ret = wr_receiveTCPEx( args[0].asInt(), (char*)stackTop->va->m_Cdata, toRead );
+	if ( toRead <= 0 )
+	{
+		return;
+	}
 
-	if ( !ret )
+	WRGCObject* va = c->getSVA( toRead, SV_CHAR, false );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !va )
 	{
-		stackTop->init();
+		return;
 	}
-	else
+#endif
+
+	int ret = wr_receiveTCPEx( args[0].asInt(), (char*)va->m_Cdata, toRead );
+
+	if ( ret > 0 )
 	{
-		stackTop->va->m_size = ret;
+		stackTop->va = va;
+		stackTop->p2 = INIT_AS_ARRAY;
+		va->m_size = ret;
 	}
 }
 
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 749ed7c..3bc26e0 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -954,6 +954,7 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 #endif
 		memcpy( ret, va->m_Cdata, va->m_size );
 		ret[ va->m_size ] = 0;
+		len = va->m_size;
 	}
 	else
 	{
-- 
2.43.0


From 0ae012dc4e6d5695fd77951bb174627defaacef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:41 +0000
Subject: [PATCH 31/57] fix: time::ms does not follow the time of day, which
 can be set back

---
 discrete_src/lib/std.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 7c63678..8dbdd4e 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -221,7 +221,7 @@ void wr_std_time( WRValue* stackTop, const int argn, WRContext* c )
 
 #ifdef __linux__
 #include <unistd.h>
-#include <sys/time.h>
+#include <time.h>
 #endif
 #ifdef _WIN32
 #include <Windows.h>
@@ -236,9 +236,10 @@ void wr_milliseconds(WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->ui = (uint32_t)GetTickCount();
 #endif
 #ifdef __linux__
-	struct timeval tv;
-	gettimeofday( &tv, NULL );
-	stackTop->ui = (uint32_t)((tv.tv_usec/1000) + (tv.tv_sec * 1000));
+	// not the time of day, that can be set back
+	struct timespec ts;
+	clock_gettime( CLOCK_MONOTONIC, &ts );
+	stackTop->ui = (uint32_t)((ts.tv_nsec/1000000) + ((uint64_t)ts.tv_sec * 1000));
 #endif
 }
 
-- 
2.43.0


From 351c4c8265897ecc4ab2646073166f56854d16ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:46 +0000
Subject: [PATCH 32/57] fix: out of range positions and counts given to the
 array calls do no damage, nor does a zero modulus in the compact build

---
 discrete_src/lib/std_container.cpp | 22 +++++++++++++++-------
 discrete_src/vm/vm.cpp             |  7 +++++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 332bd62..3fa7fb0 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -61,13 +61,13 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 
 		A->p2 = INIT_AS_ARRAY;
 
-		unsigned int count = 0;
-		if ( argn > 1 )
+		int count = 0;
+		if ( argn > 1 && (count = args[1].asInt()) < 0 )
 		{
-			count = args[1].asInt();
+			count = 0;
 		}
 		
-		A->va = c->getSVA( count, SV_VALUE, false );
+		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
@@ -115,7 +115,7 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_arrayRemoveEx( WRValue* A, const unsigned int where, const int count, WRValue* stackTop, WRContext* c )
 {
-	if ( where < A->va->m_size )
+	if ( where < A->va->m_size && count > 0 )
 	{
 		unsigned int from = where + count;
 		if ( from >= A->va->m_size )
@@ -167,7 +167,7 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* A;
 	WRValue* args = stackTop - argn;
 
-	if( (argn < 1) || !(A = wr_ifValueArray(args)) )
+	if( (argn < 2) || !(A = wr_ifValueArray(args)) )
 	{
 		return;
 	}
@@ -234,7 +234,15 @@ void wr_arrayInsert( WRValue* stackTop, const int argn, WRContext* c )
 		count = args[2].asInt();
 	}
 
-	wr_arrayInsertEx( A, where, count, stackTop, c );
+	if ( count > 0 )
+	{
+		if ( where > A->va->m_size )
+		{
+			where = A->va->m_size; // past the end inserts at the end
+		}
+
+		wr_arrayInsertEx( A, where, count, stackTop, c );
+	}
 
 	*stackTop = *A;
 }
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index d6716bd..99515d7 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -256,7 +256,7 @@ static int multiplicationI( int a, int b ) { return a * b; }
 
 static int rightShiftI( int a, int b ) { return a >> b; }
 static int leftShiftI( int a, int b ) { return a << b; }
-static int modI( int a, int b ) { return a % b; }
+static int modI( int a, int b ) { return b ? a % b : 0; }
 static int orI( int a, int b ) { return a | b; }
 static int xorI( int a, int b ) { return a ^ b; }
 static int andI( int a, int b ) { return a & b; }
@@ -1270,7 +1270,10 @@ callFunction:
 						}
 					}
 
-					--va->m_size;
+					if ( hash < va->m_size )
+					{
+						--va->m_size;
+					}
 				}
 				FASTCONTINUE;	
 			}
-- 
2.43.0


From 17c04ecfe17702b88d26b569a738a5319e1c9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 33/57] fix: a zero modulus, or the lowest int divided by -1,
 does not kill the host

---
 discrete_src/vm/operations_non_compact.cpp | 49 +++++++++++++---------
 discrete_src/vm/vm.cpp                     |  4 +-
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index b20c990..12be00d 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -30,10 +30,19 @@ SOFTWARE.
 inline int32_t wr_iadd_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a + (uint32_t)b); }
 inline int32_t wr_isub_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a - (uint32_t)b); }
 inline int32_t wr_imul_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a * (uint32_t)b); }
+inline int32_t wr_idiv_wrap( const int32_t a, const int32_t b ) { return b == -1 ? wr_isub_wrap( 0, a ) : a / b; } // b is never zero
+
+// as with division, the result of a zero modulus is zero
+inline int32_t wr_Mod_int( const int32_t a, const int32_t b ) { return (b == 0 || b == -1) ? 0 : a % b; }
+inline int32_t wr_OR_int( const int32_t a, const int32_t b ) { return a | b; }
+inline int32_t wr_AND_int( const int32_t a, const int32_t b ) { return a & b; }
+inline int32_t wr_XOR_int( const int32_t a, const int32_t b ) { return a ^ b; }
+inline int32_t wr_RightShift_int( const int32_t a, const int32_t b ) { return a >> b; }
+inline int32_t wr_LeftShift_int( const int32_t a, const int32_t b ) { return a << b; }
 
 void doVoidFuncBlank( WRValue* to, WRValue* from ) {}
 
-#define X_LOGIC_ASSIGN( NAME, OPERATION ) \
+#define X_LOGIC_ASSIGN( NAME ) \
 void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 {\
 	WRValue& V = to->singleValue();\
@@ -61,7 +70,7 @@ void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
-void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i OPERATION##= from->i; }\
+void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i = NAME##_int( to->i, from->i ); }\
 WRVoidFunc NAME##Assign[16] = \
 {\
 	NAME##Assign_I_I,   doVoidFuncBlank,   NAME##Assign_I_R,  NAME##Assign_I_E,\
@@ -71,12 +80,12 @@ WRVoidFunc NAME##Assign[16] = \
 };\
 
 
-X_LOGIC_ASSIGN( wr_Mod, % );
-X_LOGIC_ASSIGN( wr_OR, | );
-X_LOGIC_ASSIGN( wr_AND, & );
-X_LOGIC_ASSIGN( wr_XOR, ^ );
-X_LOGIC_ASSIGN( wr_RightShift, >> );
-X_LOGIC_ASSIGN( wr_LeftShift, << );
+X_LOGIC_ASSIGN( wr_Mod );
+X_LOGIC_ASSIGN( wr_OR );
+X_LOGIC_ASSIGN( wr_AND );
+X_LOGIC_ASSIGN( wr_XOR );
+X_LOGIC_ASSIGN( wr_RightShift );
+X_LOGIC_ASSIGN( wr_LeftShift );
 
 
 void wr_SubtractAssign_E_I( WRValue* to, WRValue* from )
@@ -267,7 +276,7 @@ void wr_DivideAssign_I_I( WRValue* to, WRValue* from )
 {
 	if ( from->i )
 	{
-		to->i = to->i / from->i;
+		to->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -503,7 +512,7 @@ void wr_DivideBinary_I_I( WRValue* to, WRValue* from, WRValue* target )
 	target->p2 = INIT_AS_INT;
 	if ( from->i )
 	{
-		target->i = to->i / from->i;
+		target->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -636,7 +645,7 @@ WRTargetFunc wr_AdditionBinary[16] =
 void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
 
 //------------------------------------------------------------------------------
-#define X_INT_BINARY( NAME, OPERATION ) \
+#define X_INT_BINARY( NAME ) \
 void NAME##Binary_E_I( WRValue* to, WRValue* from, WRValue* target )\
 {\
 	WRValue& V = to->singleValue();\
@@ -655,10 +664,10 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 }\
 void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
-void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
+void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = NAME##_int( to->i, rhs->i ); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = lhs->i OPERATION from->i; } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
-void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION from->i; }\
+void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = NAME##_int( lhs->i, from->i ); } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
+void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = NAME##_int( to->i, from->i ); }\
 WRTargetFunc NAME##Binary[16] = \
 {\
 	NAME##Binary_I_I, doTargetFuncBlank,   NAME##Binary_I_R,  NAME##Binary_I_E,\
@@ -667,12 +676,12 @@ WRTargetFunc NAME##Binary[16] = \
 	NAME##Binary_E_I, doTargetFuncBlank,   NAME##Binary_E_R,  NAME##Binary_E_E,\
 };\
 
-X_INT_BINARY( wr_LeftShift, << );
-X_INT_BINARY( wr_RightShift, >> );
-X_INT_BINARY( wr_Mod, % );
-X_INT_BINARY( wr_AND, & );
-X_INT_BINARY( wr_OR, | );
-X_INT_BINARY( wr_XOR, ^ );
+X_INT_BINARY( wr_LeftShift );
+X_INT_BINARY( wr_RightShift );
+X_INT_BINARY( wr_Mod );
+X_INT_BINARY( wr_AND );
+X_INT_BINARY( wr_OR );
+X_INT_BINARY( wr_XOR );
 
 
 
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 99515d7..dd71c7a 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -248,7 +248,7 @@ static float multiplicationF( float a, float b ) { return a * b; }
 
 static int divisionI( int a, int b )
 {
-	return b ? a / b : 0;
+	return b == -1 ? (int)(0u - (unsigned int)a) : (b ? a / b : 0); // INT_MIN / -1 traps
 }
 int wr_addI( int a, int b ) { return a + b; }
 static int subtractionI( int a, int b ) { return a - b; }
@@ -256,7 +256,7 @@ static int multiplicationI( int a, int b ) { return a * b; }
 
 static int rightShiftI( int a, int b ) { return a >> b; }
 static int leftShiftI( int a, int b ) { return a << b; }
-static int modI( int a, int b ) { return b ? a % b : 0; }
+static int modI( int a, int b ) { return (b == 0 || b == -1) ? 0 : a % b; }
 static int orI( int a, int b ) { return a | b; }
 static int xorI( int a, int b ) { return a ^ b; }
 static int andI( int a, int b ) { return a & b; }
-- 
2.43.0


From 98f8b311c3b170d32804f557706b95c478a4f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:59 +0000
Subject: [PATCH 34/57] fix: a collection when a value becomes a hash table
 does not mark a stale stack slot

---
 discrete_src/vm/vm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index dd71c7a..1ea48a5 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1424,6 +1424,10 @@ hashIndexJump:
 						CONTINUE;
 					}
 #endif
+					if ( register1 != register0 )
+					{
+						register1->init(); // just pushed, do not mark what used to be there
+					}
 					context->gc(stackTop);
 				}
 
-- 
2.43.0


From a3839b865aa4cfbc7029a2ab59d1435267dcc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:50 +0000
Subject: [PATCH 35/57] fix: new of an imported struct with arguments sets the
 right members and leaves the stack as it was

---
 discrete_src/vm/vm.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 1ea48a5..557eda2 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -956,19 +956,14 @@ debugReturn:
 									// the actual table location and
 									// use it
 
-									if ( args ) // fix up the return value
-									{
-										stackTop -= (args - 1);
-										*(stackTop - 1) = *register0;
-									}
-									else
-									{
-										++stackTop;
-									}
-									
-									pc += 3;
+									// its members are above the return value, following a
+									// copy of the arguments. the object replaces the arguments
+									wr_newObjectTable( context, stackTop + 1, 0, table );
+									register0 = stackTop + 1;
+									stackTop -= args;
+									*stackTop++ = *register0;
 
-									wr_newObjectTable( context, stackTop++, 0, table );
+									pc += 3;
 									goto newObjOut;
 								}
 								
-- 
2.43.0


From f4ca1bc6b34fa6529363e9927fd1b0080c1b97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 36/57] fix: a function called before its script's top level
 has completed is refused instead of returning nowhere

---
 discrete_src/vm/vm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 557eda2..39d2df0 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -755,6 +755,12 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+		if ( !context->stopLocation ) // nowhere to return to until the top level has completed
+		{
+			w->err = WR_ERR_run_must_be_called_by_itself_first;
+			return 0;
+		}
+
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
 		if ( argn >= (stackLimit - stackTop) - 1 ) // room for the arguments and the return value?
 		{
-- 
2.43.0


From 1eb0a345e1148eb9f9d5f23eb2dc41ed969e4073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:16 +0000
Subject: [PATCH 37/57] fix: importing into a suspended script leaves what is
 suspended on the shared stack alone

---
 discrete_src/utils/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 3bc26e0..f0ff13b 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -392,8 +392,9 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
-	import->stackOffset = context->stackOffset;
-	import->stackRoot = context->stackOffset;
+	// the stack is shared, stay clear of whatever is suspended on it
+	import->stackOffset = context->yield_pc ? (uint16_t)((context->yield_stackTop + 1) - context->stack) : context->stackOffset;
+	import->stackRoot = import->stackOffset;
 
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
-- 
2.43.0


From 8bd2e913f52aefaebb07b3226a5ce2e5965d8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:55 +0000
Subject: [PATCH 38/57] fix: a collection copes with data that refers to itself

---
 discrete_src/vm/gc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 0d68fb4..eb87966 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -27,6 +27,8 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 void WRContext::markBase( WRGCBase* svb )
 {
+	svb->m_flags |= GCFlag_Marked; // before its contents, which might refer back to it
+
 	if ( svb->m_type == SV_VALUE )
 	{
 		WRValue* top = ((WRGCObject*)svb)->m_Vdata + ((WRGCObject*)svb)->m_size;
@@ -57,8 +59,6 @@ void WRContext::markBase( WRGCBase* svb )
 		// mark the referenced table so it is not collected
 		((WRGCBase*)svb)->m_referencedTable->m_flags |= GCFlag_Marked;
 	}
-
-	svb->m_flags |= GCFlag_Marked;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 79f3da122a237987dd20bf5ba0baa1f15237fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:49 +0000
Subject: [PATCH 39/57] fix: every collection looks into the containers the
 host lent, not just the first

---
 discrete_src/utils/utils.cpp |  4 +--
 discrete_src/vm/gc.cpp       | 57 ++++++++++++++++++++++++++++++++++++
 discrete_src/vm/vm.h         |  3 ++
 discrete_src/wrench.h        |  3 ++
 4 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index f0ff13b..93aad1c 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1197,7 +1197,7 @@ WRValue& wr_makeString( WRContext* context, WRValue* val, const char* data, cons
 //------------------------------------------------------------------------------
 WRValue& wr_makeContainer( WRValue* val, const uint16_t sizeHint )
 {
-	val->va = (WRGCObject*)g_malloc( sizeof(WRGCObject) );
+	val->va = (WRGCObject*)g_malloc( sizeof(WRGCObject) + sizeof(WRGCObject*) ); // see WR_HOST_CONTAINER_NEXT
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !val->va )
 	{
@@ -1205,7 +1205,7 @@ WRValue& wr_makeContainer( WRValue* val, const uint16_t sizeHint )
 		return *val;
 	}
 #endif
-	memset( (unsigned char*)val->va, 0, sizeof(WRGCObject) );
+	memset( (unsigned char*)val->va, 0, sizeof(WRGCObject) + sizeof(WRGCObject*) );
 
 	val->va->init( sizeHint, SV_HASH_TABLE, false);
 	
diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index eb87966..4025a48 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -44,6 +44,12 @@ void WRContext::markBase( WRGCBase* svb )
 		// recover it and mark it
 		((WRGCBase*)(((WRGCObject*)svb)->m_Vdata) - 1)->m_flags |= GCFlag_Marked;
 
+		if ( svb->m_flags & GCFlag_NoContext )
+		{
+			markHostContainer( (WRGCObject*)svb );
+			return;
+		}
+
 		for( uint32_t i=0; i<((WRGCObject*)svb)->m_mod; ++i )
 		{
 			if ( ((WRGCObject*)svb)->m_hashTable[i] != WRENCH_NULL_HASH )
@@ -61,6 +67,51 @@ void WRContext::markBase( WRGCBase* svb )
 	}
 }
 
+//------------------------------------------------------------------------------
+void WRContext::markHostContainer( WRGCObject* container )
+{
+	// belongs to the host so will never be swept, remember to unmark it
+	WR_HOST_CONTAINER_NEXT( container ) = w->markedHostContainers;
+	w->markedHostContainers = container;
+
+	for( uint32_t i=0; i<container->m_mod; ++i )
+	{
+		if ( container->m_hashTable[i] == WRENCH_NULL_HASH )
+		{
+			continue;
+		}
+
+		WRValue* V = container->m_Vdata + (i<<1);
+		if ( V->type == WR_REF )
+		{
+			V = V->r; // a value of the host
+		}
+
+		if ( !IS_EXARRAY_TYPE(V->xtype) )
+		{
+			continue;
+		}
+
+		// the container outlives what was stored in it, so only what is
+		// known to still be around is marked
+		WRContext* c = this;
+		do
+		{
+			for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
+			{
+				if ( a == V->vb )
+				{
+					mark( V );
+					break;
+				}
+			}
+
+			c = c->imported;
+
+		} while( c && c != this );
+	}
+}
+
 //------------------------------------------------------------------------------
 void WRContext::markReferred( WRValue* s )
 {
@@ -232,6 +283,12 @@ void WRContext::gc( WRValue* stackTop )
 		c = c->imported;
 
 	} while( c && c != this );
+
+	while( w->markedHostContainers )
+	{
+		w->markedHostContainers->m_flags &= ~GCFlag_Marked;
+		w->markedHostContainers = WR_HOST_CONTAINER_NEXT( w->markedHostContainers );
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/discrete_src/vm/vm.h b/discrete_src/vm/vm.h
index e2828ba..9be22f6 100644
--- a/discrete_src/vm/vm.h
+++ b/discrete_src/vm/vm.h
@@ -40,6 +40,9 @@ struct WRFunction
 	uint8_t frameBaseAdjustment;
 };
 
+// containers made by the host have this allocated directly after them
+#define WR_HOST_CONTAINER_NEXT(C) (*(WRGCObject**)((WRGCObject*)(C) + 1))
+
 //------------------------------------------------------------------------------
 enum WRContextFlags
 {
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index 64f8255..315e609 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1159,6 +1159,7 @@ struct WRContext
 
 	void markBase( WRGCBase* svb );
 	void mark( WRValue* s );
+	void markHostContainer( WRGCObject* container );
 	void markReferred( WRValue* s );
 	void gc( WRValue* stackTop );
 	void markRoots();
@@ -1187,6 +1188,8 @@ struct WRState
 
 	void* ctx; // state-wide context pointer, opaque to wrench
 
+	WRGCObject* markedHostContainers; // found during a collection
+
 	uint32_t allocatedMemoryLimit; // WRENCH_DEFAULT_ALLOCATED_MEMORY_GC_HINT by default
 	uint16_t stackSize; // how much stack to give each context
 	uint8_t err;
-- 
2.43.0


From 191843298f903b5c8ef334fd9b06e977ad84c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:49 +0000
Subject: [PATCH 40/57] fix: a container the host made keeps its own keys, not
 the script's

---
 discrete_src/lib/std_container.cpp |  2 +-
 discrete_src/utils/utils.cpp       | 73 +++++++++++++++++++++++-------
 discrete_src/vm/index.cpp          |  2 +-
 discrete_src/vm/vm.h               |  1 +
 4 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 3fa7fb0..0feeb04 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -370,7 +370,7 @@ void wr_hashAdd( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* entry = (WRValue*)( H->va->get(hash, &element) );
 
 	*entry = args[1].deref();
-	*(entry + 1) = args[2].deref();
+	wr_setHashKey( H->va, entry, &args[2].deref() );
 
 	stackTop->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( element );
 	stackTop->vb = (WRGCBase*)(H->va->m_Vdata) - 1;
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 93aad1c..8159ff9 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1257,6 +1257,61 @@ void wr_destroyContainer( WRValue* val )
 	g_free( val->vb );
 }
 
+//------------------------------------------------------------------------------
+bool wr_makeContainerKey( WRGCObject* container, WRValue* key, const char* name, const unsigned int len )
+{
+	// create a 'key' object
+	key->va = (WRGCObject*)g_malloc( sizeof(WRGCObject) );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !key->va )
+	{
+		key->init();
+		return false;
+	}
+#endif
+	memset( (unsigned char*)key->va, 0, sizeof(WRGCObject) );
+
+	key->va->m_nextGC = container->m_nextGC;
+	container->m_nextGC = key->va;
+	
+	key->va->init( len, SV_CHAR, false);
+
+	key->va->m_flags |= GCFlag_NoContext;
+	key->p2 = INIT_AS_ARRAY;
+	memcpy(key->va->m_Cdata, name, key->va->m_size);
+	return true;
+}
+
+//------------------------------------------------------------------------------
+void wr_setHashKey( WRGCObject* table, WRValue* entry, const WRValue* key )
+{
+	WRValue* K = entry + 1;
+	if ( !(table->m_flags & GCFlag_NoContext) )
+	{
+		*K = *key;
+	}
+	else if ( !IS_EXARRAY_TYPE(K->xtype) ) // otherwise it has its name already
+	{
+		// a container the host made outlives what the script passes, so it
+		// gets a key of its own
+
+		if ( !IS_EXARRAY_TYPE(key->xtype) )
+		{
+			*K = *key;
+		}
+		else if ( key->va->m_type != SV_CHAR )
+		{
+			K->init( (int)key->getHash() );
+		}
+		else if ( !wr_makeContainerKey(table, K, key->va->m_SCdata, key->va->m_size) )
+		{
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+			g_mallocFailed = true;
+#endif
+		}
+	}
+}
+
 //------------------------------------------------------------------------------
 WRValue* wr_addToContainerEx( const char* name, WRValue* container )
 {
@@ -1265,27 +1320,11 @@ WRValue* wr_addToContainerEx( const char* name, WRValue* container )
 		return 0;
 	}
 
-	const unsigned int len = (const unsigned int)strlen(name);
-
-	// create a 'key' object
 	WRValue key;
-	key.va = (WRGCObject*)g_malloc( sizeof(WRGCObject) );
-#ifdef WRENCH_HANDLE_MALLOC_FAIL
-	if ( !key.va )
+	if ( !wr_makeContainerKey(container->va, &key, name, (const unsigned int)strlen(name)) )
 	{
 		return 0;
 	}
-#endif
-	memset( (unsigned char*)key.va, 0, sizeof(WRGCObject) );
-
-	key.va->m_nextGC = container->va->m_nextGC;
-	container->va->m_nextGC = key.va;
-	
-	key.va->init( len, SV_CHAR, false);
-
-	key.va->m_flags |= GCFlag_NoContext;
-	key.p2 = INIT_AS_ARRAY;
-	memcpy(key.va->m_Cdata, name, len);
 
 	WRValue* entry = (WRValue*)container->va->get( key.getHash() );
 	*(entry + 1) = key;
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 29e328a..ce91d9a 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -74,7 +74,7 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 		WRValue* entry = (WRValue*)(value->va->get(hash, &element));
 
 		// need to create a hash ref
-		*(entry + 1) = *index; // might be the first time it was registered
+		wr_setHashKey( value->va, entry, index ); // might be the first time it was registered
 
 		target->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( element );
 		target->vb = (WRGCBase*)(value->va->m_Vdata) - 1;
diff --git a/discrete_src/vm/vm.h b/discrete_src/vm/vm.h
index 9be22f6..9bfa32e 100644
--- a/discrete_src/vm/vm.h
+++ b/discrete_src/vm/vm.h
@@ -60,6 +60,7 @@ struct WRLibraryCleanup
 
 void wr_addLibraryCleanupFunction( WRState* w, void(*function)(WRState *w, void* param), void* param );
 
+void wr_setHashKey( WRGCObject* table, WRValue* entry, const WRValue* key );
 void wr_countOfArrayElement( WRValue* array, WRValue* target );
 
 typedef void (*WRVoidFunc)( WRValue* to, WRValue* from );
-- 
2.43.0


From 028977db622f003286777b125d8c926e1f37b8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:28 +0000
Subject: [PATCH 41/57] fix: a struct the host asks for is not made from a
 suspended or cut-off constructor call

---
 discrete_src/utils/utils.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 8159ff9..7b88260 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1225,7 +1225,16 @@ WRValue* wr_instanceStruct( WRValue* val, WRContext* context, const char* name,
 		{
 			if ( context->localFunctions[i].namespaceOffset )
 			{
-				wr_callFunction( context, signature, argv, argn );
+				if ( context->yield_pc )
+				{
+					context->w->err = WR_ERR_cannot_call_function_context_yielded;
+					return 0;
+				}
+
+				if ( !wr_callFunction(context, signature, argv, argn) )
+				{
+					return 0; // failed, or yielded before the members were set up
+				}
 			
 				WRValue* ret = wr_newObjectTable( context,
 												context->stack + (context->stackOffset + 1),
-- 
2.43.0


From 1fa55a247c74441d83b4b7083490e7714d9df4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 42/57] fix: the size hint of a container is not counted as its
 content

---
 discrete_src/vm/gc_object.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index 7e4ce2e..0b797b3 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -65,6 +65,7 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	}
 	else
 	{
+		m_size = 0; // a size hint is not a count
 		growHash( WRENCH_NULL_HASH, size, &ret );
 	}
 
-- 
2.43.0


From 4e035d7537965b62b96f1be8264812ea69b3235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:34 +0000
Subject: [PATCH 43/57] fix: removing a character of a string does not read
 through the wrong register

---
 discrete_src/vm/vm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 39d2df0..670dbe3 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1263,7 +1263,7 @@ callFunction:
 							va->m_Vdata[move] = va->m_Vdata[move+1];
 						}
 					}
-					else if ( register0->va->m_type == SV_CHAR )
+					else if ( va->m_type == SV_CHAR )
 					{
 						for( uint32_t move = hash; (move+1) < va->m_size; ++move )
 						{
-- 
2.43.0


From 460351259f9322bb74373f3ee7856e9108ddd6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:54 +0000
Subject: [PATCH 44/57] fix: hash::exists and hash::remove answer 1 or 0, not
 the address of the entry

---
 discrete_src/lib/std_container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 0feeb04..55e061d 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -383,7 +383,7 @@ void wr_hashExistEx( WRValue* stackTop, const int argn, bool remove )
 	WRValue* args = stackTop - argn;
 	if( (argn >= 2) && (H = wr_ifHash(args)) )
 	{
-		stackTop->p = H->va->exists( args[1].getHash(), remove );
+		stackTop->i = H->va->exists( args[1].getHash(), remove ) ? 1 : 0;
 	}
 }
 
-- 
2.43.0


From 6ba6b6167a5e25a65a2eec15be911b495b408989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:13 +0000
Subject: [PATCH 45/57] fix: clearing a list to a size held in the list's own
 variable reads the size before it is overwritten

---
 discrete_src/lib/std_container.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 55e061d..7d412c7 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -59,13 +59,13 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 
 		WRValue* A = &(args->deref());
 
-		A->p2 = INIT_AS_ARRAY;
-
 		int count = 0;
 		if ( argn > 1 && (count = args[1].asInt()) < 0 )
 		{
 			count = 0;
 		}
+
+		A->p2 = INIT_AS_ARRAY;
 		
 		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-- 
2.43.0


From 819249c5e260ae563816cec23a67ead5816c43ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:08 +0000
Subject: [PATCH 46/57] fix: an opcode fused in a subexpression is not changed
 by the literal that was appended before it (-(a / b) - -4 read a variable
 that does not exist)

---
 discrete_src/cc/optimizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index 87d2ae7..3f10559 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -1591,6 +1591,13 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 
 	resolveRelativeJumps( addMe );
 
+	if ( addMe.all.size() && !addMe.opcodes.size() )
+	{
+		// what is appended ends in a fused opcode: whatever was last
+		// before it is not a candidate for the keyhole anymore
+		bytecode.opcodes.clear();
+	}
+
 	bytecode.all += addMe.all;
 	bytecode.opcodes += addMe.opcodes;
 }
-- 
2.43.0


From 7c9b312ddec0b137bc38d2e96f9b1c4db453a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:37 +0000
Subject: [PATCH 47/57] fix: a list is hashed by its elements, not by the
 addresses they are stored at; a container that holds itself can be hashed

---
 discrete_src/vm/operations.cpp | 61 +++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index a49726f..662099e 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -182,55 +182,70 @@ WRValue& WRValue::deref() const
 }
 
 //------------------------------------------------------------------------------
-uint32_t WRValue::getHashEx() const
+#define WR_MAX_HASH_DEPTH 6 // containers may contain themselves
+static uint32_t wr_hashEx( const WRValue& V, const int depth );
+static inline uint32_t wr_hashElement( const WRValue& V, const int depth )
+{
+	return (V.type <= WR_FLOAT) ? V.ui : wr_hashEx( V, depth );
+}
+
+//------------------------------------------------------------------------------
+static uint32_t wr_hashEx( const WRValue& V, const int depth )
 {
 	// QUICKLY return the easy answers, that's why this code looks a bit convoluted
-	if (type == WR_REF)
+	if (V.type == WR_REF)
 	{
-		return r->getHash();
+		return wr_hashElement( *V.r, depth );
 	}
 
-	if (IS_CONTAINER_MEMBER(xtype))
+	if (IS_CONTAINER_MEMBER(V.xtype))
 	{
-		return deref().getHash();
+		return wr_hashElement( V.deref(), depth );
 	}
-	else if (xtype == WR_EX_ARRAY)
+	else if (V.xtype == WR_EX_ARRAY)
 	{
-		if (va->m_type == SV_CHAR)
+		if (V.va->m_type == SV_CHAR)
 		{
-			return wr_hash(va->m_Cdata, va->m_size);
+			return wr_hash(V.va->m_Cdata, V.va->m_size);
 		}
-		else if (va->m_type == SV_VALUE)
+		else if (V.va->m_type == SV_VALUE)
 		{
-			return wr_hash(va->m_Vdata, va->m_size * sizeof(WRValue));
+			// hash each element, not the pointers they hold
+			uint32_t hash = wr_hash(&V.va->m_size, sizeof(uint32_t));
+			for (uint32_t e = 0; depth < WR_MAX_HASH_DEPTH && e < V.va->m_size; ++e)
+			{
+				uint32_t h = wr_hashElement( V.va->m_Vdata[e], depth + 1 );
+				hash = wr_hash(&h, 4, hash);
+			}
+			return hash;
 		}
 	}
-	else if (xtype == WR_EX_HASH_TABLE)
+	else if (V.xtype == WR_EX_HASH_TABLE)
 	{
 		// start with a hash of the key hashes
-		uint32_t hash = wr_hash(va->m_hashTable, va->m_mod * sizeof(uint32_t));
+		uint32_t hash = wr_hash(V.va->m_hashTable, V.va->m_mod * sizeof(uint32_t));
 
 		// hash each element, positionally dependant
-		for (uint32_t e = 0; e < va->m_mod; ++e)
+		for (uint32_t e = 0; depth < WR_MAX_HASH_DEPTH && e < V.va->m_mod; ++e)
 		{
-			if (va->m_hashTable[e] != WRENCH_NULL_HASH)
+			if (V.va->m_hashTable[e] != WRENCH_NULL_HASH)
 			{
-				uint32_t h = e << 16 | va->m_Vdata[e << 1].getHash();
+				uint32_t h = e << 16 | wr_hashElement( V.va->m_Vdata[e << 1], depth + 1 );
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
 		return hash;
 	}
-	else if (xtype == WR_EX_STRUCT)
+	else if (V.xtype == WR_EX_STRUCT)
 	{
-		uint32_t hash = wr_hash((char*)&va->m_hashTable, sizeof(void*)); // this is in ROM and must be identical for the struct to be the same (same namespace)
+		uint32_t hash = wr_hash((char*)&V.va->m_hashTable, sizeof(void*)); // this is in ROM and must be identical for the struct to be the same (same namespace)
 
-		for (uint32_t m = 0; m < va->m_mod; ++m)
+		for (uint32_t m = 0; depth < WR_MAX_HASH_DEPTH && m < V.va->m_mod; ++m)
 		{
-			const uint8_t* offset = va->m_ROMHashTable + (m * 5);
+			const uint8_t* offset = V.va->m_ROMHashTable + (m * 5);
 			if ((uint32_t)READ_32_FROM_PC(offset) != WRENCH_NULL_HASH)
 			{
-				uint32_t h = va->m_Vdata[READ_8_FROM_PC(offset + 4)].getHash();
+				uint32_t h = wr_hashElement( V.va->m_Vdata[READ_8_FROM_PC(offset + 4)], depth + 1 );
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
@@ -241,6 +256,12 @@ uint32_t WRValue::getHashEx() const
 	return 0;
 }
 
+//------------------------------------------------------------------------------
+uint32_t WRValue::getHashEx() const
+{
+	return wr_hashEx( *this, 0 );
+}
+
 //------------------------------------------------------------------------------
 void wr_valueToEx( const WRValue* ex, WRValue* value )
 {
-- 
2.43.0


From b08e090bc5d61971de889d241eeef456be247e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:48 +0000
Subject: [PATCH 48/57] fix: pushing a 32-bit or float literal, or an indexed
 pair of variables, checks the stack limit

---
 discrete_src/vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 670dbe3..37ec919 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1373,6 +1373,7 @@ callFunction:
 			CASE(IndexSkipLoad):
 			{
 				wr_index[(register0->type<<2)|register1->type]( context, register0, register1, stackTop++ );
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1769,6 +1770,7 @@ doAssignToLocalAndPop:
 load32ToTemp:
 				register0->i = READ_32_FROM_PC(pc);
 				pc += 4;
+				CHECK_STACK;
 				CONTINUE;
 			}
 			
-- 
2.43.0


From 41f76308620a84d6d952a04bcf6eb348a294fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:49 +0000
Subject: [PATCH 49/57] fix: growing an array counts towards the next
 collection whichever way it is grown (an index store did not)

---
 discrete_src/utils/utils.cpp   | 2 --
 discrete_src/vm/operations.cpp | 6 +++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 7b88260..cf11af5 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -140,7 +140,6 @@ WRValue* WrenchValue::asArrayMember( const int index )
 	else if ( index >= (int)m_value->va->m_size )
 	{
 		wr_growValueArray( m_value->va, index );
-		m_context->allocatedMemoryHint += index * ((m_value->va->m_type == SV_CHAR) ? 1 : sizeof(WRValue));
 	}
 
 	return (WRValue*)m_value->va->get( index );
@@ -749,7 +748,6 @@ WRValue* WRValue::indexArray( WRContext* context, const uint32_t index, const bo
 		}
 		
 		wr_growValueArray( V.va, index );
-		context->allocatedMemoryHint += index * ((V.va->m_type == SV_CHAR) ? 1 : sizeof(WRValue));
 	}
 
 	return V.va->m_Vdata + index;
diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index 662099e..daa78f7 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -118,6 +118,11 @@ void wr_growValueArray( WRGCObject* va, int newMinIndex )
 	
 	va->m_size = newMinIndex + 1;
 
+	if ( !(va->m_flags & GCFlag_NoContext) )
+	{
+		va->m_creatorContext->allocatedMemoryHint += (va->m_size * size_of) - size_el;
+	}
+
 	// clear new entries
 	memset( va->m_Cdata + size_el, 0, (va->m_size * size_of) - size_el );
 }
@@ -284,7 +289,6 @@ void wr_valueToEx( const WRValue* ex, WRValue* value )
 					return; // grow failed, don't write out of bounds
 				}
 #endif
-				ex->va->m_creatorContext->allocatedMemoryHint += s * ((ex->va->m_type == SV_CHAR) ? 1 : sizeof(WRValue));
 			}
 
 			if ( ex->va->m_type == SV_CHAR )
-- 
2.43.0


From 525b77d172702c2ad33a49e868eca645d6c3c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:35 +0000
Subject: [PATCH 50/57] fix: a hash table that grows counts towards the next
 collection

---
 discrete_src/lib/std_container.cpp |  2 +-
 discrete_src/utils/utils.cpp       |  4 ++--
 discrete_src/vm/gc.cpp             | 13 +++++++++++++
 discrete_src/vm/index.cpp          | 10 +++++-----
 discrete_src/vm/operations.cpp     |  2 +-
 discrete_src/vm/vm.cpp             |  2 +-
 discrete_src/vm/vm.h               |  2 +-
 discrete_src/wrench.h              |  1 +
 8 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 7d412c7..eaf7fb0 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -367,7 +367,7 @@ void wr_hashAdd( WRValue* stackTop, const int argn, WRContext* c )
 
 	uint32_t hash = args[2].getHash(); // key
 	int element;
-	WRValue* entry = (WRValue*)( H->va->get(hash, &element) );
+	WRValue* entry = c->getHashEntry( H->va, hash, &element );
 
 	*entry = args[1].deref();
 	wr_setHashKey( H->va, entry, &args[2].deref() );
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index cf11af5..7e2c115 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -170,7 +170,7 @@ WRValue* WrenchValue::addHashTableValue( const char* key )
 	WRValue* entry = (WRValue*)(m_value->va->exists( hash, false ));
 	if ( !entry )
 	{
-		entry = (WRValue*)(m_value->va->get(hash));
+		entry = m_context->getHashEntry( m_value->va, hash );
 		if ( entry )
 		{
 			wr_makeString( m_context, entry + 1, key );
@@ -784,7 +784,7 @@ WRValue* WRValue::indexHash( WRContext* context, const uint32_t hash, const bool
 		V.p2 = INIT_AS_HASH_TABLE;
 	}
 
-	return create ? (WRValue*)V.va->get(hash) : V.va->exists(hash, false);
+	return create ? context->getHashEntry( V.va, hash ) : V.va->exists(hash, false);
 }
 
 //------------------------------------------------------------------------------
diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 4025a48..e615bd8 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -327,3 +327,16 @@ WRGCObject* WRContext::getSVA( int size, WRGCObjectType type, bool init )
 	return ret;
 }
 
+//------------------------------------------------------------------------------
+WRValue* WRContext::getHashEntry( WRGCObject* table, const uint32_t hash, int* index )
+{
+	const uint16_t mod = table->m_mod;
+	WRValue* ret = (WRValue*)table->get( hash, index );
+	
+	if ( table->m_mod > mod )
+	{
+		allocatedMemoryHint += (table->m_mod - mod) * (2*sizeof(WRValue) + sizeof(uint32_t));
+	}
+
+	return ret;
+}
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index ce91d9a..d7f525b 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -64,14 +64,14 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash )
 }
 
 //------------------------------------------------------------------------------
-void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
+void wr_doIndexHash( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
 	uint32_t hash = index->getHash();
 
 	if ( value->xtype == WR_EX_HASH_TABLE ) 
 	{
 		int element;
-		WRValue* entry = (WRValue*)(value->va->get(hash, &element));
+		WRValue* entry = c->getHashEntry( value->va, hash, &element );
 
 		// need to create a hash ref
 		wr_setHashKey( value->va, entry, index ); // might be the first time it was registered
@@ -126,7 +126,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 
 		if (EXPECTS_HASH_INDEX(value->xtype))
 		{
-			wr_doIndexHash( index, value, target );
+			wr_doIndexHash( c, index, value, target );
 			return;
 		}
 
@@ -171,7 +171,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #endif
 				value->p2 = INIT_AS_HASH_TABLE;
 
-				wr_doIndexHash( I, value, target );
+				wr_doIndexHash( c, I, value, target );
 				return;
 			}
 		}
@@ -233,7 +233,7 @@ void doIndex_E_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 		}
 		else
 		{
-			wr_doIndexHash( I, V, target );
+			wr_doIndexHash( c, I, V, target );
 		}
 	}
 	else
diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index daa78f7..b90d5fd 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -388,7 +388,7 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 		table->p2 = INIT_AS_HASH_TABLE;
 	}
 
-	WRValue *entry = (WRValue *)table->va->get( index->getHash() );
+	WRValue *entry = c->getHashEntry( table->va, index->getHash() );
 
 	*entry++ = value->deref(); // never keep an alias of an element in the table
 	*entry = index->deref();
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 37ec919..0747844 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1437,7 +1437,7 @@ hashIndexJump:
 				goto indexTempLiteralPostLoad;
 #else
 				stackTop->p2 = INIT_AS_INT;
-				wr_doIndexHash( stackTop, register0, stackTop - 1);
+				wr_doIndexHash( context, stackTop, register0, stackTop - 1);
 				CONTINUE;
 #endif
 			}
diff --git a/discrete_src/vm/vm.h b/discrete_src/vm/vm.h
index 9bfa32e..143802b 100644
--- a/discrete_src/vm/vm.h
+++ b/discrete_src/vm/vm.h
@@ -109,7 +109,7 @@ extern WRTargetFunc wr_ANDBinary[16];
 extern WRTargetFunc wr_ORBinary[16];
 extern WRTargetFunc wr_XORBinary[16];
 
-void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target );
+void wr_doIndexHash( WRContext* c, WRValue* index, WRValue* value, WRValue* target );
 typedef void (*WRStateFunc)( WRContext* c, WRValue* to, WRValue* from, WRValue* target );
 extern WRStateFunc wr_index[16];
 extern WRStateFunc wr_assignAsHash[4];
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index 315e609..f454cfb 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1166,6 +1166,7 @@ struct WRContext
 	void sweep();
 
 	WRGCObject* getSVA( int size, WRGCObjectType type, bool init );
+	WRValue* getHashEntry( WRGCObject* table, const uint32_t hash, int* index =0 ); // table->get(), counting what the table grows by
 };
 
 struct WRLibraryCleanup;
-- 
2.43.0


From 3fa95c8d59099fbdc61c683199781c66b91ecefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:26 +0000
Subject: [PATCH 51/57] fix: a fused compare and branch counts against the
 slice: recursion that decides with a comparison could not be preempted

---
 discrete_src/vm/vm.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 0747844..c7ab087 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -2989,6 +2989,7 @@ CompareGInverted:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? READ_16_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -3001,6 +3002,7 @@ CompareGNormal:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : READ_16_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -3013,6 +3015,7 @@ CompareLInverted:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? READ_16_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -3025,6 +3028,7 @@ CompareLNormal:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : READ_16_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -3037,6 +3041,7 @@ CompareG8Inverted:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? (int8_t)READ_8_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -3049,6 +3054,7 @@ CompareG8Normal:
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : (int8_t)READ_8_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -3061,6 +3067,7 @@ CompareL8Inverted:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? (int8_t)READ_8_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			
@@ -3073,6 +3080,7 @@ CompareL8Normal:
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				register1 = --stackTop;
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : (int8_t)READ_8_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3085,6 +3093,7 @@ CompareLLInv:
 				register1 = frameBase + READ_8_FROM_PC(pc++);
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? READ_16_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			CASE(LLCompareEQBZ): { returnFunc = wr_CompareEQ; goto CompareLL; }
@@ -3096,6 +3105,7 @@ CompareLL:
 				register1 = frameBase + READ_8_FROM_PC(pc++);
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : READ_16_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3109,6 +3119,7 @@ CompareLL8Inv:
 				register1 = frameBase + READ_8_FROM_PC(pc++);
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? (int8_t)READ_8_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			CASE(LLCompareEQBZ8): { returnFunc = wr_CompareEQ; goto CompareLL8; }
@@ -3120,6 +3131,7 @@ CompareLL8:
 				register1 = frameBase + READ_8_FROM_PC(pc++);
 				register0 = frameBase + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : (int8_t)READ_8_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3133,6 +3145,7 @@ CompareGGInv:
 				register1 = globalSpace + READ_8_FROM_PC(pc++);
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? READ_16_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3145,6 +3158,7 @@ CompareGG:
 				register1 = globalSpace + READ_8_FROM_PC(pc++);
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : READ_16_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
@@ -3158,6 +3172,7 @@ CompareGG8Inv:
 				register1 = globalSpace + READ_8_FROM_PC(pc++);
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? (int8_t)READ_8_FROM_PC(pc) : 2;
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 			CASE(GGCompareEQBZ8): { returnFunc = wr_CompareEQ; goto CompareGG8; }
@@ -3169,6 +3184,7 @@ CompareGG8:
 				register1 = globalSpace + READ_8_FROM_PC(pc++);
 				register0 = globalSpace + READ_8_FROM_PC(pc++);
 				pc += returnFunc[(register0->type<<2)|register1->type]( register0, register1 ) ? 2 : (int8_t)READ_8_FROM_PC(pc);
+				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
 
-- 
2.43.0


From 817b9ae0256e816e055148f0cd78b840383e602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:46 +0000
Subject: [PATCH 52/57] fix: str::sprintf into a string that is also the format
 or an argument read what it had already overwritten

---
 discrete_src/lib/std_string.cpp | 36 ++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 5b5651a..a4c5f76 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -356,6 +356,18 @@ unsigned int wr_doSprintf( WRValue& to, WRValue& fmt, WRValue* args, const int a
 	unsigned int outbufSize = 0;
 	char* outbuf = (char*)to.array( &outbufSize, SV_CHAR );
 
+	// the destination may also be the format or an argument: those are
+	// still needed while it is written, so give it a buffer of its own
+	for( int a=-1; outbuf && a<argn; ++a )
+	{
+		WRValue& in = a < 0 ? fmt : args[a].deref();
+		if ( IS_ARRAY(in.xtype) && in.va == to.deref().va )
+		{
+			outbuf = 0;
+		}
+	}
+
+	WRGCObject* va;
 	unsigned int size;
 
 	if ( !outbuf ) // going to have to make one then
@@ -369,17 +381,19 @@ unsigned int wr_doSprintf( WRValue& to, WRValue& fmt, WRValue* args, const int a
 			goto createNewBuffer;
 		}
 
-		to.va = c->getSVA( size, SV_CHAR, false );
+		va = c->getSVA( size, SV_CHAR, false );
 
 		#ifdef WRENCH_HANDLE_MALLOC_FAIL
-		if ( !to.va )
+		if ( !va )
 		{
 			to.p2 = WR_INT;
+			to.i = 0;
 			return 0;
 		}
 		#endif
 
-		memcpy( to.va->m_Cdata, tmpbuf, size );
+		memcpy( va->m_Cdata, tmpbuf, size );
+		to.va = va;
 	}
 	else
 	{
@@ -389,16 +403,18 @@ unsigned int wr_doSprintf( WRValue& to, WRValue& fmt, WRValue* args, const int a
 		{
 createNewBuffer:
 
-			to.va = c->getSVA( size, SV_CHAR, false );
+			va = c->getSVA( size, SV_CHAR, false );
 
 			#ifdef WRENCH_HANDLE_MALLOC_FAIL
-			if ( !to.va )
+			if ( !va )
 			{
 				to.p2 = WR_INT;
+				to.i = 0;
 				return 0;
 			}
 			#endif
-			wr_sprintfEx( (char *)to.va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
+			wr_sprintfEx( (char *)va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
+			to.va = va;
 			}
 			else
 			{
@@ -409,16 +425,18 @@ createNewBuffer:
 					 && size > 0
 					 && outbufSize >= (size << 2) )
 				{
-					to.va = c->getSVA( size, SV_CHAR, false );
+					va = c->getSVA( size, SV_CHAR, false );
 
 					#ifdef WRENCH_HANDLE_MALLOC_FAIL
-					if ( !to.va )
+					if ( !va )
 					{
 						to.p2 = WR_INT;
+						to.i = 0;
 						return 0;
 					}
 					#endif
-					wr_sprintfEx( (char *)to.va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
+					wr_sprintfEx( (char *)va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
+					to.va = va;
 				}
 				else
 				{
-- 
2.43.0


From 6715590f3dff7760c518dd9696b18ac872416bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:18 +0000
Subject: [PATCH 53/57] fix: messages are kept apart from the functions,
 libraries and constants of the state

---
 discrete_src/lib/std_msg.cpp | 8 ++++----
 discrete_src/utils/utils.cpp | 5 +++++
 discrete_src/wrench.h        | 1 +
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_msg.cpp b/discrete_src/lib/std_msg.cpp
index 351c250..70a83e6 100644
--- a/discrete_src/lib/std_msg.cpp
+++ b/discrete_src/lib/std_msg.cpp
@@ -36,7 +36,7 @@ void wr_mboxRead( WRValue* stackTop, const int argn, WRContext* c )
 		WRValue* args = stackTop - argn;
 		int clear = (argn > 1) ? args[1].asInt() : 0;
 
-		WRValue* msg = c->w->globalRegistry.exists( args[0].getHash(), clear != 0 );
+		WRValue* msg = c->w->messages.exists( args[0].getHash(), clear != 0 );
 
 		if ( msg )
 		{
@@ -59,7 +59,7 @@ void wr_mboxWrite( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* args = stackTop - argn;
 
-		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( args[0].getHash() );
+		WRValue* msg = c->w->messages.getAsRawValueHashTable( args[0].getHash() );
 		msg->ui = args[1].getHash();
 		msg->p2 = INIT_AS_INT;
 	}
@@ -71,7 +71,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0 )
 	{
-		WRValue* msg = c->w->globalRegistry.exists((stackTop - argn)->getHash(), true );
+		WRValue* msg = c->w->messages.exists((stackTop - argn)->getHash(), true );
 		if ( msg )
 		{
 			msg->init(); // the slot is free, leave nothing in it
@@ -86,7 +86,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 void wr_mboxPeek( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0
-		 && c->w->globalRegistry.exists((stackTop - argn)->getHash(), false) )
+		 && c->w->messages.exists((stackTop - argn)->getHash(), false) )
 	{
 		stackTop->i = 1;
 	}
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 7e2c115..880f1de 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -203,6 +203,7 @@ WRState* wr_newState( int stackSize )
 																		   
 	memset( (unsigned char*)w, 0, sizeof(WRState) );
 	w->globalRegistry.growHash( WRENCH_NULL_HASH, 0 );
+	w->messages.growHash( WRENCH_NULL_HASH, 0 );
 
 	w->stackSize = stackSize;
 	w->allocatedMemoryLimit = WRENCH_DEFAULT_ALLOCATED_MEMORY_GC_HINT;
@@ -232,6 +233,10 @@ void wr_destroyState( WRState* w )
 
 	w->globalRegistry.clear();
 
+	wr_freeGCChain( w->messages.m_nextGC );
+
+	w->messages.clear();
+
 	g_free( w );
 }
 
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index f454cfb..ddea3a5 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1186,6 +1186,7 @@ struct WRState
 	WRLibraryCleanup* libCleanupFunctions;
 
 	WRGCObject globalRegistry;
+	WRGCObject messages; // of the message library, their keys are not names of anything
 
 	void* ctx; // state-wide context pointer, opaque to wrench
 
-- 
2.43.0


From d18b2b7241f765611c08a680531a5e90948c1272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:06 +0000
Subject: [PATCH 54/57] fix: sys::isFunction no longer finds a function some
 script merely tried to call

---
 discrete_src/lib/std_sys.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discrete_src/lib/std_sys.cpp b/discrete_src/lib/std_sys.cpp
index a5667ec..5f17cbd 100644
--- a/discrete_src/lib/std_sys.cpp
+++ b/discrete_src/lib/std_sys.cpp
@@ -34,7 +34,8 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* arg = stackTop - argn;
 		uint32_t hash = arg->getHash();
-		if ( c->w->globalRegistry.exists(hash, false) )
+		WRValue* native = c->w->globalRegistry.exists( hash, false );
+		if ( native && native->lcb ) // might only have been looked for
 		{
 			stackTop->i = 1;
 		}
-- 
2.43.0


From 52b0b7599e269a72485c3bd7988f0b26c7fe4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:38 +0000
Subject: [PATCH 55/57] fix: a script goes on with its own slice after a host
 callback ran another script of the state

---
 discrete_src/lib/std_sys.cpp | 17 --------------
 discrete_src/vm/vm.cpp       | 45 +++++++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/discrete_src/lib/std_sys.cpp b/discrete_src/lib/std_sys.cpp
index 5f17cbd..312f02f 100644
--- a/discrete_src/lib/std_sys.cpp
+++ b/discrete_src/lib/std_sys.cpp
@@ -53,25 +53,8 @@ static void importFromScript( WRValue* stackTop, WRContext* c, uint8_t* block, c
 	const uint16_t savedOffset = c->stackOffset;
 	c->stackOffset = (uint16_t)((stackTop + 1) - c->stack);
 
-#ifdef WRENCH_TIME_SLICES
-	// and it goes on with what was left of its own slice
-	const int yieldEnabled = c->w->yieldEnabled;
-	const int sliceInstructionCount = c->w->sliceInstructionCount;
-#endif
-
 	WRContext* import = wr_import( c, block, len );
 
-#ifdef WRENCH_TIME_SLICES
-	if ( yieldEnabled )
-	{
-		c->w->yieldEnabled = yieldEnabled;
-		if ( c->w->sliceInstructionCount < 1 || c->w->sliceInstructionCount > sliceInstructionCount )
-		{
-			c->w->sliceInstructionCount = sliceInstructionCount;
-		}
-	}
-#endif
-
 	c->stackOffset = savedOffset;
 
 	if ( import )
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index c7ab087..f7180d8 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -196,10 +196,12 @@ void wr_setInstructionsPerSlice( WRState* w, const int instructions )
 	w->instructionsPerSlice = instructions;
 }
 
+const int c_yieldForced = 2; // as opposed to enabled
+
 //------------------------------------------------------------------------------
 void wr_forceYield( WRState* w )
 {
-	w->yieldEnabled = true; // prevent a race in case the count is decremented before this flag is checked
+	w->yieldEnabled = c_yieldForced; // prevent a race in case the count is decremented before this flag is checked
 	w->sliceInstructionCount = 1;
 }
 
@@ -303,29 +305,42 @@ WRValue* wr_continue( WRContext* context )
 	return wr_callFunction( context, (WRFunction*)0, context->yield_argv, context->yield_argn );
 }
 
+#ifdef WRENCH_TIME_SLICES
+//------------------------------------------------------------------------------
+// a script that calls out goes on with its own slice, whatever else is run
+// meanwhile, unless a forced yield is pending
+struct WRSliceKeeper
+{
+	WRState* w;
+	const int yieldEnabled;
+	const int sliceInstructionCount;
+
+	WRSliceKeeper( WRState* state ) : w(state), yieldEnabled(state->yieldEnabled), sliceInstructionCount(state->sliceInstructionCount) {}
+	~WRSliceKeeper()
+	{
+		if ( w->yieldEnabled != c_yieldForced || w->sliceInstructionCount < 1 )
+		{
+			w->yieldEnabled = yieldEnabled;
+			w->sliceInstructionCount = sliceInstructionCount;
+		}
+	}
+};
+#endif
+
 //------------------------------------------------------------------------------
 static WRValue* callImported( WRContext* context, WRContext* import, WRFunction* function, WRValue* stackTop, const int args )
 {
 	uint16_t savedOffset = import->stackOffset;
 	import->stackOffset = (uint16_t)(stackTop - context->stack);
 
-#ifdef WRENCH_TIME_SLICES
-	WRState* w = context->w;
-	const bool yieldEnabled = w->yieldEnabled;
-	const int sliceInstructionCount = w->sliceInstructionCount;
-#endif
-
 	WRValue* ret = wr_callFunction( import, function, stackTop - args, args );
 
 #ifdef WRENCH_TIME_SLICES
-	if ( yieldEnabled )
+	// the import had a slice of its own, what it used is gone from the caller's too
+	const int left = context->w->instructionsPerSlice - context->w->lastSlicesUsed;
+	if ( left > 0 && left < context->w->sliceInstructionCount )
 	{
-		// the caller goes on with what was left of its own slice
-		w->yieldEnabled = true;
-		if ( w->sliceInstructionCount < 1 || w->sliceInstructionCount > sliceInstructionCount )
-		{
-			w->sliceInstructionCount = sliceInstructionCount;
-		}
+		context->w->sliceInstructionCount = left;
 	}
 #endif
 
@@ -690,6 +705,8 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	};
 
 #ifdef WRENCH_TIME_SLICES
+	const WRSliceKeeper sliceKeeper( w );
+
 	if (w->instructionsPerSlice == 0)
 	{
 		w->yieldEnabled = false;
-- 
2.43.0


From 92379dd09617a408c467eca0a75bea65a6f8009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:01 +0000
Subject: [PATCH 56/57] fix: a task may have the host add or remove other tasks
 while it runs

---
 discrete_src/vm/scheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discrete_src/vm/scheduler.cpp b/discrete_src/vm/scheduler.cpp
index 15ac88d..4866add 100644
--- a/discrete_src/vm/scheduler.cpp
+++ b/discrete_src/vm/scheduler.cpp
@@ -59,7 +59,6 @@ WrenchScheduler::~WrenchScheduler()
 //------------------------------------------------------------------------------
 void WrenchScheduler::tick( int instructionsPerSlice )
 {
-	wr_setInstructionsPerSlice( m_w, instructionsPerSlice );
 	WrenchScheduledTask** link = &m_tasks;
 	while( *link )
 	{
@@ -74,8 +73,12 @@ void WrenchScheduler::tick( int instructionsPerSlice )
 			continue;
 		}
 
+		wr_setInstructionsPerSlice( m_w, instructionsPerSlice );
 		wr_callFunction( task->context, (WRFunction*)0, task->context->yield_argv, task->context->yield_argn );
 
+		// The task might have had the host add or remove others, find it again.
+		for( link = &m_tasks; *link != task; link = &(*link)->next );
+
 		// A task can finish during this tick or may have faulted; remove it either way.
 		if ( !task->context->yield_pc )
 		{
-- 
2.43.0


From dc1e8ff8a5b04db815721fdddc15e230307e7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:03 +0000
Subject: [PATCH 57/57] fix: a task may have the host remove the task itself

---
 discrete_src/vm/scheduler.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/discrete_src/vm/scheduler.cpp b/discrete_src/vm/scheduler.cpp
index 4866add..f6d53c3 100644
--- a/discrete_src/vm/scheduler.cpp
+++ b/discrete_src/vm/scheduler.cpp
@@ -32,6 +32,8 @@ struct WrenchScheduledTask
 	WRContext* context;
 	WrenchScheduledTask* next;
 	int id;
+	bool running;
+	bool removed; // by itself, while running
 };
 
 //------------------------------------------------------------------------------
@@ -74,15 +76,17 @@ void WrenchScheduler::tick( int instructionsPerSlice )
 		}
 
 		wr_setInstructionsPerSlice( m_w, instructionsPerSlice );
+		task->running = true;
 		wr_callFunction( task->context, (WRFunction*)0, task->context->yield_argv, task->context->yield_argn );
 
 		// The task might have had the host add or remove others, find it again.
 		for( link = &m_tasks; *link != task; link = &(*link)->next );
+		task->running = false;
 
 		// A task can finish during this tick or may have faulted; remove it either way.
-		if ( !task->context->yield_pc )
+		if ( !task->context->yield_pc || task->removed )
 		{
-			if ( m_w->err )
+			if ( m_w->err && !task->removed )
 			{
 				m_lastErr = m_w->err;
 				m_lastErrId = task->id;
@@ -128,6 +132,8 @@ int WrenchScheduler::addThread( const uint8_t* byteCode, const int size, const i
 	task->context = context;
 	task->next = m_tasks;
 	task->id = ++wr_idGenerator;
+	task->running = false;
+	task->removed = false;
 	m_tasks = task;
 			  	
 	return task->id;
@@ -140,8 +146,16 @@ bool WrenchScheduler::removeTask( const int taskId )
 	WrenchScheduledTask* task = m_tasks;
 	while( task )
 	{
-		if ( task->id == taskId )
+		if ( task->id == taskId && !task->removed )
 		{
+			if ( task->running )
+			{
+				// it asked for this itself, tick() does the rest when it is back
+				task->removed = true;
+				wr_forceYield( m_w );
+				return true;
+			}
+
 			wr_destroyContext( task->context );
 
 			if ( last )
-- 
2.43.0

