From 197c2d031ae80f774591434a1e834348c6603ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 1/3] fix: mark every word of a store wider than 32 bits as
 dirty

Stores of 8 or 16 bytes (64- and 128-bit data width) only marked the first
word dirty, so the other words were lost when the line was written back.
---
 blocking_cache/units/UpdateTagArrayUnit.py | 42 ++++++++++++++--------
 blocking_cache/units/arithmetics.py        | 31 ++++++++++++----
 2 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/blocking_cache/units/UpdateTagArrayUnit.py b/blocking_cache/units/UpdateTagArrayUnit.py
index d81bd35..92a3b42 100644
--- a/blocking_cache/units/UpdateTagArrayUnit.py
+++ b/blocking_cache/units/UpdateTagArrayUnit.py
@@ -25,6 +25,29 @@ class UpdateTagArrayUnit( Component ):
     s.wr_len      = InPort (p.bitwidth_len)       # for double-word CIFER hack
     s.out         = OutPort(p.StructTagArray)
 
+    # Mask of the words being written
+    s.len_words = Wire(p.bitwidth_dirty)
+    s.wr_words  = Wire(p.bitwidth_dirty)
+    all_words   = p.BitsDirty( (1 << (p.bitwidth_data // 32)) - 1 )
+
+    @update
+    def len_words_logic():
+      if s.wr_len == 0:
+        # full data width, i.e. more than one word if wider than 32 bits
+        s.len_words @= all_words
+      elif s.wr_len == 3:
+        # moyang: this is a hack for CIFER project. When len == 3, we
+        # zero-extend the 32-bit word to a 64-bit double word, so we need to
+        # set the dirty bits of two words
+        s.len_words @= 3
+      elif s.wr_len == trunc(Bits32(8), p.bitwidth_len):
+        # truncated to 0 unless 128 bit data
+        s.len_words @= 3
+      else:
+        s.len_words @= 1
+
+    s.wr_words //= lambda: s.len_words << zext(s.offset[2 : p.bitwidth_offset], p.bitwidth_dirty)
+
     @update
     def new_tag_array_entry_logic():
       s.out.tag @= s.old_entries[s.way].tag
@@ -32,29 +55,18 @@ class UpdateTagArrayUnit( Component ):
       s.out.dty @= s.old_entries[s.way].dty
 
       if s.cmd == UpdateTagArrayUnit_CMD_WR_REFILL:
-        # Refill on a write, mark the word being written as dirty, the
+        # Refill on a write, mark the words being written as dirty, the
         # rest is clean
         s.out.val @= CACHE_LINE_STATE_VALID
-        s.out.dty @= 0 | s.refill_dty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        s.out.dty @= s.refill_dty | s.wr_words
       elif s.cmd == UpdateTagArrayUnit_CMD_RD_REFILL:
         # Refill for a read, simply mark valid bit and clear the dirty
         # bits
         s.out.val @= CACHE_LINE_STATE_VALID
         s.out.dty @= 0 | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_WR_HIT:
-        # Hit a clean word, mark the word as dirty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        # Hit a clean word, mark the words as dirty
+        s.out.dty @= s.old_entries[s.way].dty | s.wr_words
       elif s.cmd == UpdateTagArrayUnit_CMD_CLEAR:
         # Clear the entire entry
         s.out.tag @= 0
diff --git a/blocking_cache/units/arithmetics.py b/blocking_cache/units/arithmetics.py
index d3266ca..468a2ed 100644
--- a/blocking_cache/units/arithmetics.py
+++ b/blocking_cache/units/arithmetics.py
@@ -250,19 +250,36 @@ class TagArrayRDataProcessUnit( Component ):
     s.line_dirty = OutPort(p.associativity) # If the line is dirty
     s.tag_entires= [ OutPort(p.StructTagArray) for _ in range(p.associativity) ]
 
-    # word dirty logic
+    # Mask of the words being accessed
+    s.len_words = Wire(p.bitwidth_dirty)
+    s.wr_words  = Wire(p.bitwidth_dirty)
+    all_words   = p.BitsDirty( (1 << (p.bitwidth_data // 32)) - 1 )
+
     @update
-    def word_dirty_logic():
-      for i in range(p.associativity):
+    def len_words_logic():
+      if s.wr_len == 0:
+        # full data width, i.e. more than one word if wider than 32 bits
+        s.len_words @= all_words
+      elif s.wr_len == 3:
         # moyang: this is a CIFER hack. When writing a double word (zero
         # extending a 32-bit word to a 64-bit double word), we only consider the
         # double word dirty if both 32-bit words are dirty, because we need to
         # stall the pipeline to set the two dirty bits if any of them is not
         # already dirty.
-        if s.wr_len == 3:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ] & s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] + 1 ]
-        else:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ]
+        s.len_words @= 3
+      elif s.wr_len == trunc(Bits32(8), p.bitwidth_len):
+        # truncated to 0 unless 128 bit data
+        s.len_words @= 3
+      else:
+        s.len_words @= 1
+
+    s.wr_words //= lambda: s.len_words << zext(s.offset[2 : p.bitwidth_offset], p.bitwidth_dirty)
+
+    # word dirty logic: dirty only if every word being accessed is dirty
+    @update
+    def word_dirty_logic():
+      for i in range(p.associativity):
+        s.word_dirty[i] @= (s.tag_array[i].dty & s.wr_words) == s.wr_words
 
     @update
     def line_dirty_logic():
-- 
2.43.0


From 05414542f4524ad982b614248c915d28b2dd3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:25 +0000
Subject: [PATCH 2/3] fix: FL cache model: atomics on any address, sub-word
 write-init

ModelCache.amo stored lines under a Bits key (and looked them up with the
signed integer value), so an atomic on a line not accessed before, or at an
address with the top bit set, raised KeyError. ModelCache.init assigned the
full-width data to a narrower slice when len was not zero, which raised
ValueError.
---
 blocking_cache/BlockingCacheFL.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blocking_cache/BlockingCacheFL.py b/blocking_cache/BlockingCacheFL.py
index 1a3cfb5..a4182dd 100644
--- a/blocking_cache/BlockingCacheFL.py
+++ b/blocking_cache/BlockingCacheFL.py
@@ -275,7 +275,7 @@ class ModelCache:
     if len_ == 0:
       self.mem[new_addr][offset*8 : (offset+self.cache_bitwidth_data/8)*8] = value
     else:
-      self.mem[new_addr][offset*8 : (offset + int(len_))*8 ] = value
+      self.mem[new_addr][offset*8 : (offset + int(len_))*8 ] = value[0 : int(len_)*8 ]
     self.transactions.append(req(self.CacheReqType,'in', opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,'in', opaque, 0, len_, 0))
     self.opaque += 1
@@ -283,17 +283,17 @@ class ModelCache:
   def amo(self, addr, value, opaque, len_, func):
     # AMO operations are on the word level only
     self.tracker.amo_req(addr)
-    new_addr = addr[self.offset_end:32]
+    new_addr = int(addr[self.offset_end:32])
     offset = int(addr[self.offset_start:self.offset_end])
     if new_addr not in self.mem:
       self.mem[new_addr] = Bits(self.mem_bitwidth_data, 0)
-    ret = self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8]
+    ret = self.mem[new_addr][offset * 8 : (offset + 4) * 8]
     
     value = trunc(value, 32)
     amo_out = AMO_FUNS[ int(func) ]( ret, value )
     ret = zext( ret, self.cache_bitwidth_data )
     value = zext( value, self.cache_bitwidth_data )
-    self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8] = amo_out
+    self.mem[new_addr][offset * 8 : (offset + 4) * 8] = amo_out
     
     self.transactions.append(req (self.CacheReqType, func, opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,func, opaque, 0,    len_, ret))
-- 
2.43.0


From 5faca378871b338031d2075c6670bec130dbe0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:58 +0000
Subject: [PATCH 3/3] fix: write-init must not take over the dirty bits of the
 last miss

The MSHR output keeps the dirty bits of the last miss. A later write-init
marked those words of its own line modified, so an eviction or flush wrote
words the request never wrote over memory.
---
 blocking_cache/BlockingCacheDpathRTL.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blocking_cache/BlockingCacheDpathRTL.py b/blocking_cache/BlockingCacheDpathRTL.py
index 57b13ae..5b1c006 100644
--- a/blocking_cache/BlockingCacheDpathRTL.py
+++ b/blocking_cache/BlockingCacheDpathRTL.py
@@ -113,7 +113,11 @@ class BlockingCacheDpathRTL( Component ):
     m.way        //= s.update_tag_way_mux_M0.out
     m.offset     //= s.cachereq_M0.addr.offset
     m.cmd        //= s.ctrl.update_tag_cmd_M0
-    m.refill_dty //= s.MSHR_dealloc_out.dirty_bits
+    # The MSHR keeps the dirty bits of the last miss; they only concern refills
+    # and replays, not a write-init from the processor
+    m.refill_dty //= lambda: ( s.MSHR_dealloc_out.dirty_bits
+                               if s.ctrl.cachereq_memresp_mux_sel_M0
+                               else p.BitsDirty(0) )
     m.wr_len     //= s.cachereq_M0.len
 
     s.tag_entries_M1_bypass = [ Wire(p.StructTagArray) for _ in range(p.associativity) ]
-- 
2.43.0

