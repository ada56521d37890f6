From 7ecb894a1115a40ee582fe1e333af2bbb8df0e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 001/172] fix: field predict with the byte enable off leaves
 the field alone instead of raising

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 25c6931..54d6cde 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1265,7 +1265,7 @@ class UVMRegField(UVMObject):
 
         # Assume that the entire field is enabled
         if (0x00000001 & be) == 0:
-            raise Exception('DBG Early return field not enabled')
+            return
 
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
-- 
2.43.0


From 4a472df4f203cc5431c00be0868b2e9a861dcde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 002/172] fix: RW and WO fields are writable through a
 write-only map

---
 src/uvm/reg/uvm_reg_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 54d6cde..b9f1a2b 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -415,9 +415,10 @@ class UVMRegField(UVMObject):
                 field_access = "NOACCESS"
 
         elif rights == "WO":
-            field_access = "NOACCESS"
             if field_access == 'RW' or field_access == 'WO':
                 field_access = "WO"
+            else:
+                field_access = "NOACCESS"
         else:
             field_access = "NOACCESS"
             fname = ""
-- 
2.43.0


From 6a484a7a3f8d2bb82ccfbc09f49c5649bcb5f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 003/172] fix: direct prediction of a field of a busy register
 reports failure

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index b9f1a2b..35d5391 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1304,7 +1304,7 @@ class UVMRegField(UVMObject):
                 cb = cbs.next()
             field_val &= self._get_mask()
 
-        elif UVM_PREDICT_DIRECT:
+        elif kind == UVM_PREDICT_DIRECT:
             if self.m_parent.is_busy():
                 uvm_report_warning("RegModel", ("Trying to predict value of field '"
                    + self.get_name() + "' while register '" + self.m_parent.get_full_name()
-- 
2.43.0


From 83f7c8d23c25d49b8bfc7131dc554892e1d396c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 004/172] fix: set_offset on a locked map forgets the old
 address and honours unmapped

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 970ef19..e813a0d 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -669,7 +669,7 @@ class UVMRegMap(UVMObject):
         if blk.is_locked():
 
             # remove any existing cached addresses
-            if info.unmapped is False:
+            if not info.unmapped:
                 for addr in info.addr:
                     if addr not in top_map.m_regs_by_offset_wo:
                         del top_map.m_regs_by_offset[addr]
@@ -730,7 +730,7 @@ class UVMRegMap(UVMObject):
 
                 info.addr = addrs # cache it
 
-        if unmapped is True:
+        if unmapped:
             info.offset   = -1
             info.unmapped = 1
         else:
-- 
2.43.0


From 7d7771d9b610d3b847c81b029b4fc555236b0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 005/172] fix: physical addresses of multi-word registers below
 two submap levels are not repeated

---
 src/uvm/reg/uvm_reg_map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index e813a0d..7c3d2e9 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1108,6 +1108,7 @@ class UVMRegMap(UVMObject):
         bus_width = self.get_n_bytes(UVM_NO_HIER)
         up_map = None  # uvm_reg_map
         local_addr = []
+        addr.clear()
         multiplier = 1
         if self.m_byte_addressing:
             multiplier = bus_width
-- 
2.43.0


From e70c149178c8a3de44dc8ec823ef02f223cffa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 006/172] fix: register accesses through an adapter with
 provides_responses fetch the response

---
 src/uvm/reg/uvm_reg_map.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 7c3d2e9..fd60851 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1430,12 +1430,12 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = None  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
                     #rw_access = adapter.bus2reg(bus_rsp, rw_access)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     #rw_access = adapter.bus2reg(bus_req, rw_access)
                     adapter.bus2reg(bus_req, rw_access)
@@ -1579,11 +1579,11 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = 0  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     adapter.bus2reg(bus_req,rw_access)
 
-- 
2.43.0


From 4d2afc44d5f4ca9d34235a4499385e08467d0eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 007/172] fix: reg.update returns a status when there is
 nothing to update

---
 src/uvm/reg/uvm_reg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f057f99..f349adf 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1049,9 +1049,8 @@ class UVMReg(UVMObject):
         """
         uvm_check_output_args([status])
         upd = 0x0
-        # status = UVM_IS_OK
-
         if self.needs_update() is False:
+            status.append(UVM_IS_OK)
             return
 
         # Concatenate the write-to-update values from each field
-- 
2.43.0


From f4906a5a646d0b039223462213606ebe9320e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 008/172] fix: mirror does not check the value of a failed read

---
 src/uvm/reg/uvm_reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f349adf..f6e32e6 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1135,7 +1135,7 @@ class UVMReg(UVMObject):
         await self.XreadX(status, v, path, _map, parent, prior, extension, fname, lineno)
         v = v[0]
 
-        if status == UVM_NOT_OK:
+        if status[0] == UVM_NOT_OK:
             await self.XatomicX(0)
             return
 
-- 
2.43.0


From 5e021b1304235bb97cb267b45090d0aca608a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 009/172] fix: mirror through an unknown map releases the
 register

---
 src/uvm/reg/uvm_reg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f6e32e6..96bd187 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1125,6 +1125,7 @@ class UVMReg(UVMObject):
             _map = self.get_local_map(_map, "read()")
 
         if _map is None:
+            await self.XatomicX(0)
             return
 
         # Remember what we think the value is before it gets updated
-- 
2.43.0


From db7cecb4bc509ed589a13afcd2e7517319b8f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 010/172] fix: write-only fields are left out of the mirror
 check

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 96bd187..9769bfc 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1351,7 +1351,7 @@ class UVMReg(UVMObject):
 
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (self.m_fields[i].get_compare() == UVM_NO_CHECK or
                     acc == "WO"):
                 lsb_pos = self.m_fields[i].get_lsb_pos()
@@ -1367,7 +1367,7 @@ class UVMReg(UVMObject):
         #foreach(self.m_fields[i]):
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (not(self.m_fields[i].get_compare() == UVM_NO_CHECK or
                    acc == "WO")):
                 mask = ((1 << self.m_fields[i].get_n_bits())-1)
-- 
2.43.0


From 0c9728344e66c8ea4bfc1785a78bdeb4ab5f636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 011/172] fix: callbacks registered on a register are called
 for writes

---
 src/uvm/reg/uvm_reg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 9769bfc..2cd0910 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1422,18 +1422,18 @@ class UVMReg(UVMObject):
         lsb = 0
 
         for i in range(len(self.m_fields)):
-            cbs = UVMRegFieldCbIter(self.m_fields[i])
+            fcbs = UVMRegFieldCbIter(self.m_fields[i])
             f = self.m_fields[i]  # uvm_reg_field
             lsb = f.get_lsb_pos()
             msk = ((1 << f.get_n_bits() )-1) << lsb
             rw.value[0] = (value & msk) >> lsb
             await f.pre_write(rw)  # TODO yield?
-            cb = cbs.first()
+            cb = fcbs.first()
             while cb is not None:
                 rw.element = f
                 rw.element_kind = UVM_FIELD
                 await cb.pre_write(rw)
-                cb = cbs.next()
+                cb = fcbs.next()
             value = (value & ~msk) | (rw.value[0] << lsb)
 
         rw.element = self
-- 
2.43.0


From 12d136cc0094b9eadd908893a982ce58205261ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 012/172] fix: read and post-write register and field callbacks
 are awaited

---
 src/uvm/reg/uvm_mem.py     | 2 +-
 src/uvm/reg/uvm_reg.py     | 8 ++++----
 src/uvm/reg/uvm_reg_cbs.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index b790fdb..4ef6b65 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1086,7 +1086,7 @@ class UVMMem(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 2cd0910..e6884e0 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1535,7 +1535,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while cb is not None:
-                cb.post_write(rw)
+                await cb.post_write(rw)
                 cb = cbs.next()
             await f.post_write(rw)
 
@@ -1620,7 +1620,7 @@ class UVMReg(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
@@ -1727,7 +1727,7 @@ class UVMReg(UVMObject):
         # POST-READ CBS - REG
         cb = cbs.first()
         while (cb is not None):
-            cb.post_read(rw)
+            await cb.post_read(rw)
             cb = cbs.next()
         await self.post_read(rw)
 
@@ -1741,7 +1741,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while (cb is not None):
-                cb.post_read(rw)
+                await cb.post_read(rw)
                 cb = cbs.next()
             await f.post_read(rw)
 
diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index ac7f76d..9ba8895 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -193,7 +193,7 @@ class UVMRegCbs(UVMCallback):
         await uvm_zero_delay()
 
 
-    def post_read(self, rw):
+    async def post_read(self, rw):
         """
            Task: post_read
 
-- 
2.43.0


From 91713ebfc101c128f924652e72d9cd685f2d23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 013/172] fix: register accesses through a user backdoor await
 it

---
 src/uvm/reg/uvm_reg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index e6884e0..51ceeb2 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1460,7 +1460,7 @@ class UVMReg(UVMObject):
             # Mimick the final value after a physical read
             rw.kind = UVM_READ
             if bkdr is not None:
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
 
@@ -1480,7 +1480,7 @@ class UVMReg(UVMObject):
             rw.value[0] = final_val
 
             if bkdr is not None:
-                bkdr.write(rw)
+                await bkdr.write(rw)
             else:
                 self.backdoor_write(rw)
 
@@ -1637,7 +1637,7 @@ class UVMReg(UVMObject):
                 exp = self.get()
 
             if (bkdr is not None):
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
             value = rw.value[0]
@@ -1673,7 +1673,7 @@ class UVMReg(UVMObject):
                     saved = rw.value[0]
                     rw.value[0] = value
                     if bkdr is not None:
-                        bkdr.write(rw)
+                        await bkdr.write(rw)
                     else:
                         self.backdoor_write(rw)
                     rw.value[0] = saved
-- 
2.43.0


From d3beff59aae81d06c62adc30093df1bcac43b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 014/172] fix: check-on-read compares with the mirrored value,
 not the desired one

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 51ceeb2..671863c 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1634,7 +1634,7 @@ class UVMReg(UVMObject):
             bkdr = self.get_backdoor()
             _map = UVMRegMap.backdoor()
             if _map.get_check_on_read():
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             if (bkdr is not None):
                 await bkdr.read(rw)
@@ -1692,7 +1692,7 @@ class UVMReg(UVMObject):
             self.m_is_busy = True
 
             if (rw.local_map.get_check_on_read()):
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             map_info = arr_map_info[0]
             #  ...VIA USER FRONTDOOR
-- 
2.43.0


From 1e7c146f95e96054f1ddaa9b1bc00c269c7671a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 015/172] fix: illegal memory accesses are refused instead of
 carried out

---
 src/uvm/reg/uvm_mem.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 4ef6b65..ed49311 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -908,7 +908,7 @@ class UVMMem(UVMObject):
                sv.sformatf("Offset 'h%0h exceeds size of memory, 'h%0h",
                  rw.offset, self.m_size))
             rw.status = UVM_NOT_OK
-            return 0
+            return False
 
         if rw.path == UVM_DEFAULT_PATH:
             rw.path = self.m_parent.get_default_path()
@@ -930,7 +930,7 @@ class UVMMem(UVMObject):
                     "No transactor available to physically access memory from map '"
                     + rw.map.get_full_name() + "'")
                 rw.status = UVM_NOT_OK
-                return 0
+                return False
 
             _map_info_data = rw.local_map.get_mem_map_info(self)
             map_info.append(_map_info_data)
@@ -939,10 +939,10 @@ class UVMMem(UVMObject):
 
                 if (_map_info_data.unmapped):
                     uvm_error("RegModel", "Memory '" + self.get_full_name()
-                              + "' unmapped in map '" + rw.map.get_full_name()
+                              + "' unmapped in map '" + rw.local_map.get_full_name()
                               + "' and does not have a user-defined frontdoor")
                     rw.status = UVM_NOT_OK
-                    return 0
+                    return False
 
                 if len(rw.value) > 1:
                     if self.get_n_bits() > rw.local_map.get_n_bytes()*8:
@@ -950,18 +950,19 @@ class UVMMem(UVMObject):
                              sv.sformatf("Cannot burst a %0d-bit memory through a narrower data path (%0d bytes)",
                              self.get_n_bits(), rw.local_map.get_n_bytes()*8))
                         rw.status = UVM_NOT_OK
-                        return 0
+                        return False
 
                     if rw.offset + len(rw.value) > self.m_size:
                         uvm_error("RegModel",
                            sv.sformatf("Burst of size 'd%0d starting at offset 'd%0d exceeds size of memory, 'd%0d",
                                len(rw.value), rw.offset, self.m_size))
-                        return 0
+                        rw.status = UVM_NOT_OK
+                        return False
 
             if rw.map is None:
                 rw.map = rw.local_map
 
-        return 1
+        return True
 
 
     #   extern virtual task do_write (uvm_reg_item rw)
-- 
2.43.0


From 76889bbc2ab141a91e8f2360ce9a599d4c9fb67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 016/172] fix: get_access of a memory in several maps returns
 the access

---
 src/uvm/reg/uvm_mem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index ed49311..6866a47 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -434,6 +434,8 @@ class UVMMem(UVMObject):
             uvm_error("RegModel", "Shared memory '" + self.get_full_name()
                 + "' is not shared in map '" + _map.get_full_name() + "'")
 
+        return get_access
+
     #   // Function: get_size
     #   //
     #   // Returns the number of unique memory locations in this memory.
-- 
2.43.0


From 8179539dbc764ca8529c870a8157d7fc46573027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 017/172] fix: memory burst_read fills the array it is given

---
 src/uvm/reg/uvm_mem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 6866a47..6524ac4 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -761,7 +761,7 @@ class UVMMem(UVMObject):
     async def burst_read(self, status, offset,
     value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname="",
             lineno=0):
-        uvm_check_output_args([status, value])
+        uvm_check_output_args([status])
         rw = UVMRegItem.type_id.create("mem_burst_read", None, self.get_full_name())
         rw.element      = self
         rw.element_kind = UVM_MEM
@@ -778,8 +778,6 @@ class UVMMem(UVMObject):
 
         await self.do_read(rw)
         status.append(rw.status)
-        for val in rw.value:
-            value.append(val)
 
 
     #   // Task: poke
-- 
2.43.0


From 92fea3c038b39599919e4dd1a524d2754360bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 018/172] fix: single-location memories can be mapped, and
 strides do not go through floats

---
 src/uvm/reg/uvm_reg_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index fd60851..bb713e8 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -189,7 +189,8 @@ class UVMRegMap(UVMObject):
                     max1 = addrs_max[len(addrs_max)-1]
                 max2 = addrs_max[0]
                 # address interval between consecutive mem offsets
-                stride = int((max2 - min2)/(mem.get_size() - 1))
+                if mem.get_size() > 1:
+                    stride = (max2 - min2) // (mem.get_size() - 1)
 
                 for reg_addr in top_map.m_regs_by_offset:
                     if (reg_addr >= min1 and reg_addr <= max1):
-- 
2.43.0


From 5a37a03327b0f95a705372cd0710ce87c04add2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 019/172] fix: overlap of a memory with a memory or register is
 reported as text, not an exception

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index bb713e8..92d574a 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -152,7 +152,7 @@ class UVMRegMap(UVMObject):
                         if (addr >= rr.min and addr <= rr.max):
                             a = sv.sformatf("%0h",addr)
                             b = sv.sformatf("[%0h:%0h]", rr.min, rr.max)
-                            uvm_warning("RegModel", ("In map '",
+                            uvm_warning("RegModel", ("In map '" +
                                     self.get_full_name() + "' register '" +
                                 rg.get_full_name() + "' with address " + a +
                                 "maps to same address as memory '" +
@@ -205,7 +205,7 @@ class UVMRegMap(UVMObject):
                     if (min1 <= rr.max and max1 >= rr.max or
                             min1 <= rr.min and max1 >= rr.min or
                             min1 >= rr.min and max1 <= rr.max):
-                        a = sv.sformatf("[%0h:%0h]",min,max)
+                        a = sv.sformatf("[%0h:%0h]",min1,max1)
                         uvm_warning("RegModel", ("In map '" + self.get_full_name()
                             + "' memory '" + mem.get_full_name() + "' overlaps with address range of memory '"
                             + top_map.m_mems_by_offset[rr].get_full_name()
-- 
2.43.0


From 8fe2f783bc3abb84b6cf2bffd71fee941bbe48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 020/172] fix: field callbacks without post_predict do not
 break predictions

---
 src/uvm/reg/uvm_reg_cbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index 9ba8895..3b1ebf8 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -254,6 +254,9 @@ class UVMRegCbs(UVMCallback):
     #                                      input uvm_reg_map    map)
     #   endfunction
 
+    def post_predict(self, fld, previous, value, kind, path, _map):
+        pass
+
 
     def encode(self, data):
         """
-- 
2.43.0


From 8249a2d4b0f35e8e9a5a1334e47395eb9a09cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 021/172] fix: disabled callbacks are skipped by iterators
 without a callback type

---
 src/uvm/base/uvm_callback.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index ce091e2..e8d6fb4 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -980,7 +980,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]  # Just return 1st index without type match
         return None
         #  endfunction
@@ -1020,7 +1020,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]  # Just return 1st index without type match
         return None
 
@@ -1060,7 +1060,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
         #  endfunction
@@ -1104,7 +1104,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
 
-- 
2.43.0


From 2e7a95b2e6f3e7dd5ac97a3ee5756918edf5c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 022/172] fix: a second memory region can be reserved

---
 src/uvm/reg/uvm_mem_mam.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/uvm/reg/uvm_mem_mam.py b/src/uvm/reg/uvm_mem_mam.py
index 16805eb..c7eebe8 100644
--- a/src/uvm/reg/uvm_mem_mam.py
+++ b/src/uvm/reg/uvm_mem_mam.py
@@ -384,6 +384,21 @@ class UVMMemRegion:
         self.XvregX         = None
         #endfunction: new
 
+    def get_start_offset(self):
+        return self.Xstart_offsetX
+
+    def get_end_offset(self):
+        return self.Xend_offsetX
+
+    def get_len(self):
+        return self.len
+
+    def get_n_bytes(self):
+        return self.n_bytes
+
+    def convert2string(self):
+        return sv.sformatf("['h%h:'h%h]", self.Xstart_offsetX, self.Xend_offsetX)
+
     #
     #   // Function: get_start_offset
     #   //
-- 
2.43.0


From a8bfeb0fac661dab3ff64ce56b7e52e994c93230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 023/172] fix: virtual registers are laid out in whole memory
 locations

---
 src/uvm/reg/uvm_vreg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_vreg.py b/src/uvm/reg/uvm_vreg.py
index 9d4b30f..e8ecff2 100644
--- a/src/uvm/reg/uvm_vreg.py
+++ b/src/uvm/reg/uvm_vreg.py
@@ -223,7 +223,7 @@ class UVMVReg(UVMObject):
                 mem.get_full_name()))
             return 0
 
-        min_incr = (self.get_n_bytes()-1) / mem.get_n_bytes() + 1
+        min_incr = (self.get_n_bytes()-1) // mem.get_n_bytes() + 1
         if (incr == 0):
             incr = min_incr
         if min_incr > incr:
-- 
2.43.0


From 5cef3232231bca937f65c92d417006ae236523d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 024/172] fix: reg_block.update skips an up-to-date block and
 returns one status, also of its sub-blocks

---
 src/uvm/reg/uvm_reg_block.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index aceea7a..8eb4d72 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -949,9 +949,10 @@ class UVMRegBlock(UVMObject):
         uvm_check_output_args([status])
         stat_all = UVM_IS_OK
 
-        if self.needs_update() is False:
+        if not self.needs_update():
             uvm_info("RegModel", sv.sformatf("%s:%0d - RegModel block %s does not need updating",
                          fname, lineno, self.get_name()), UVM_HIGH)
+            status.append(UVM_IS_OK)
             return
 
 
@@ -972,9 +973,9 @@ class UVMRegBlock(UVMObject):
         for blk_ in self.blks.key_list():
             blk = blk_
             stat_blk = []
-            await blk.update(status,path,parent,prior,extension,fname,lineno)
+            await blk.update(stat_blk,path,parent,prior,extension,fname,lineno)
             if (stat_blk[0] != UVM_IS_OK and stat_blk[0] != UVM_HAS_X):
-                stat_all = stat_blk
+                stat_all = stat_blk[0]
         status.append(stat_all)
 
 
-- 
2.43.0


From 5bdc8a5fb065fe2b5d63af2c5e32f994e2fd2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 025/172] fix: write_reg_by_name writes the register and
 returns its status

---
 src/uvm/reg/uvm_reg_block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index 8eb4d72..e4ac7d6 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -1045,10 +1045,11 @@ class UVMRegBlock(UVMObject):
         self.fname = fname
         self.lineno = lineno
 
-        status = UVM_NOT_OK
         rg = self.get_reg_by_name(name)
         if rg is not None:
             await rg.write(status, data, path, map, parent, prior, extension)
+        else:
+            status.append(UVM_NOT_OK)
 
 
     #   // Task: read_reg_by_name
-- 
2.43.0


From 7b508456bb67438c91341571705bedb366a45c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 026/172] fix: writing a FIFO register queues the value once
 instead of failing, and updating an up-to-date one succeeds

---
 src/uvm/reg/uvm_reg.py      | 2 +-
 src/uvm/reg/uvm_reg_fifo.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 671863c..5220e98 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -895,7 +895,7 @@ class UVMReg(UVMObject):
         # create an abstract transaction for this operation
         rw = UVMRegItem.type_id.create("write_item", None, self.get_full_name())
         await self.XatomicX(1, rw)
-        self.set(value)
+        UVMReg.set(self, value)
 
         rw.element      = self
         rw.element_kind = UVM_REG
diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index 332bf06..5eb7982 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -23,7 +23,7 @@
 import cocotb
 from .uvm_reg import UVMReg
 from .uvm_reg_field import UVMRegField
-from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_NOT_OK,
+from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_IS_OK, UVM_NOT_OK,
     UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT, UVM_PREDICT_READ)
 from ..macros import uvm_warning, uvm_error
 from ..base.sv import sv
@@ -72,6 +72,7 @@ class UVMRegFIFO(UVMReg):
         self.m_size = size
         self.fifo = []
         self.m_set_cnt = 0
+        self.m_update_in_progress = 0
 
 
     #    // Funtion: build
@@ -166,6 +167,7 @@ class UVMRegFIFO(UVMReg):
             prior=-1, extension=None, fname="", lineno=0):
         upd = 0x0
         if self.m_set_cnt == 0 or len(self.fifo) == 0:
+            status.append(UVM_IS_OK)
             return
         self.m_update_in_progress = 1
         i = len(self.fifo)-self.m_set_cnt
@@ -196,6 +198,8 @@ class UVMRegFIFO(UVMReg):
     #    //
     def get(self, fname="", lineno=0):
         #return fifo.pop(0)();
+        if len(self.fifo) == 0:
+            return 0
         val = self.fifo[0]
         return val
 
-- 
2.43.0


From 58fb4b7b5e5ae7bb1989cb58716b2d8ad6e8c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 027/172] fix: a failed indirect access releases its registers
 and reports the failure; indirect registers can be predicted

---
 src/uvm/reg/uvm_reg_indirect.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_indirect.py b/src/uvm/reg/uvm_reg_indirect.py
index b40803c..baeff28 100644
--- a/src/uvm/reg/uvm_reg_indirect.py
+++ b/src/uvm/reg/uvm_reg_indirect.py
@@ -205,11 +205,9 @@ class UVMRegIndirectData(UVMReg):
     #   endfunction
 
     #
-    #   virtual function uvm_reg get_indirect_reg(string  fname = "",
-    #                                        int     lineno = 0)
-    #      int unsigned idx = m_idx.get_mirrored_value()
-    #      return(m_tbl[idx])
-    #   endfunction
+    def get_indirect_reg(self, fname="", lineno=0):
+        idx = self.m_idx.get_mirrored_value()
+        return self.m_tbl[idx]
 
     def needs_update(self):
         return 0
@@ -390,6 +388,9 @@ class uvm_reg_indirect_ftdr_seq(UVMRegFrontdoor):
         await self.m_addr_reg.do_write(rw)
 
         if rw.status == UVM_NOT_OK:
+            await self.m_addr_reg.XatomicX(0)
+            await self.m_data_reg.XatomicX(0)
+            self.rw_info.status = rw.status
             return
 
         arr = []
-- 
2.43.0


From 0d85f928c66dd4c32dff8b6c5c9ca45f1428f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 028/172] fix: copies of a register item do not share its
 values

---
 src/uvm/reg/uvm_reg_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_item.py b/src/uvm/reg/uvm_reg_item.py
index 7799aea..8f6fd69 100644
--- a/src/uvm/reg/uvm_reg_item.py
+++ b/src/uvm/reg/uvm_reg_item.py
@@ -215,7 +215,7 @@ class UVMRegItem(UVMSequenceItem):
         self.element_kind = rhs_.element_kind
         self.element = rhs_.element
         self.kind = rhs_.kind
-        self.value = rhs_.value
+        self.value = list(rhs_.value)
         self.offset = rhs_.offset
         self.status = rhs_.status
         self.local_map = rhs_.local_map
-- 
2.43.0


From bf3fe8850161395e54b3c783eed840a2fa542f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 029/172] fix: an object can be copied again after a nested
 copy

---
 src/uvm/base/uvm_object.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 46170f5..53ea3b8 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -520,7 +520,6 @@ class UVMObject(sv_obj):
             rhs (UVMObject): An object to be copied.
         """
         # For cycle checking
-        UVMObject.depth = 0
         if (rhs is not None) and rhs in UVMObject.uvm_global_copy_map:
             return
 
-- 
2.43.0


From 105d7fe3622b5929973e0fd49177b1af46e533ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 030/172] fix: the hardware reset test covers registers of
 sub-blocks

---
 src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
index 35e237c..568064c 100644
--- a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
@@ -29,7 +29,7 @@ from ...base.uvm_resource_db import UVMResourceDb
 from ...base.sv import sv
 from ...base import UVM_LOW, UVM_HIGH
 from ...base.uvm_globals import uvm_zero_delay
-from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, uvm_status_e
+from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, UVM_NO_HIER, uvm_status_e
 
 
 class UVMRegHWResetSeq(UVMRegSequence):
@@ -97,7 +97,6 @@ class UVMRegHWResetSeq(UVMRegSequence):
     
     async def do_block(self, blk):
         maps = []  # uvm_reg_map maps[$]
-        sub_maps = []  # uvm_reg_map sub_maps[$]
         no_rr1 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_TESTS", 0)
         no_rr2 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_HW_RESET_TEST", 0)
 
@@ -108,17 +107,12 @@ class UVMRegHWResetSeq(UVMRegSequence):
 
         # Iterate over all maps defined for the RegModel block
         for d in range(len(maps)):
-            regs = []  # uvm_reg[]
-            maps[d].get_submaps(sub_maps)
-            if len(sub_maps) != 0:
-                continue
-
             # Iterate over all registers in the map, checking accesses
             # Note: if map were in inner loop, could test simulataneous
             # access to same reg via different bus interfaces
 
             regs = []
-            maps[d].get_registers(regs)
+            maps[d].get_registers(regs, UVM_NO_HIER)
 
             for i in range(len(regs)):
                 status = 0
@@ -143,10 +137,10 @@ class UVMRegHWResetSeq(UVMRegSequence):
                           sv.sformatf("Status was %s when reading reset value of register \"%s\" through map \"%s\".",
                           uvm_status_e(status), regs[i].get_full_name(), maps[d].get_full_name()))
 
-            blks = []  # uvm_reg_block blks[$]
-            blk.get_blocks(blks)
-            for i in range(len(blks)):
-                await self.do_block(blks[i])
+        blks = []  # uvm_reg_block blks[$]
+        blk.get_blocks(blks, UVM_NO_HIER)
+        for i in range(len(blks)):
+            await self.do_block(blks[i])
 
         #   endtask:do_block
 
-- 
2.43.0


From aabb571da39a051bb06f7f2452b24847df61dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 031/172] fix: built-in register and memory tests report a
 failing access instead of raising

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 6 +++---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py   | 2 +-
 src/uvm/reg/sequences/uvm_reg_access_seq.py | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 4dbaa0c..65b2d13 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -125,7 +125,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-                           status.name(), mem.get_full_name(), k))
+                           UVM_STATUS_NAMES[status], mem.get_full_name(), k))
                 else:
                     exp = val
 
@@ -135,7 +135,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when writing '%s[%0d]' through map '%s'.",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
                 await Timer(1, "NS")
 
                 val = []
@@ -173,7 +173,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when reading \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
                 else:
                     if mode == "WO":
                         if val != 0:
diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index a4d6bc3..8b11521 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -140,7 +140,7 @@ class UVMMemSingleWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemWalkSeq", sv.sformatf(
                         "Status was %s when writing \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
 
                 if k > 0:
                     status = []
diff --git a/src/uvm/reg/sequences/uvm_reg_access_seq.py b/src/uvm/reg/sequences/uvm_reg_access_seq.py
index e85aa77..21b94e0 100644
--- a/src/uvm/reg/sequences/uvm_reg_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_access_seq.py
@@ -139,7 +139,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             status = status[0]
 
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when writing '" + rg.get_full_name()
                    + "' through map '" + maps[j].get_full_name() + "'"))
             await Timer(1, "NS")  # tpoikela: Original UVM has #1
@@ -148,7 +148,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_BACKDOOR, UVMRegMap.backdoor(), self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                                     + "' when reading reset value of register '"
                                     + rg.get_full_name() +  "' through backdoor"))
 
@@ -156,7 +156,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.write(status, v, UVM_BACKDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when writing '" + rg.get_full_name()
                    + "' through backdoor"))
 
@@ -164,7 +164,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_FRONTDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when reading reset value of register '"
                    + rg.get_full_name() + "' through map '"
                    + maps[j].get_full_name() + "'"))
-- 
2.43.0


From 0e200b27def401065f034d3d50936eb354c36829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 032/172] fix: packing a value uses only its low size bits

---
 src/uvm/base/uvm_packer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 40d2e7c..db85a38 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -154,6 +154,7 @@ class UVMPacker(object):
     #  extern def pack_field(self,uvm_bitstream_t value, int size):
     def pack_field(self, value, size) -> None:
         #  for (int i=0; i<size; i++)
+        value &= (1 << size) - 1
         if self.big_endian == 1:
             flipped = self.flip_bit_order(value, size)
             self.m_bits |= flipped << self.count
@@ -170,6 +171,7 @@ class UVMPacker(object):
     #  // ~$bits~. This optimized version of <pack_field> is useful for sizes up
     #  // to 64 bits.
     def pack_field_int(self, value: int, size: int) -> None:
+        value &= (1 << size) - 1
         if self.big_endian == 1:
             flipped = self.flip_bit_order(value, size)
             self.m_bits |= flipped << self.count
-- 
2.43.0


From e1a39460f595c285fb82baf4edb31441d86add8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 033/172] fix: pack_bytes and pack_ints honour a partial size

---
 src/uvm/base/uvm_packer.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index db85a38..465241a 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -208,12 +208,10 @@ class UVMPacker(object):
                 size, max_size))
             return
         else:
+            all_bits = 0
             for i in range(len(value)):
-                byte = value[i]
-                if self.big_endian == 1:
-                    byte = self.flip_bit_order(value[len(value)-1-i], 8)
-                self.m_bits |= byte << self.count
-                self.count += 8
+                all_bits |= (value[i] & 0xFF) << (i * 8)
+            self.pack_field_int(all_bits, size)
 
 
     #  // Function: pack_ints
@@ -256,13 +254,10 @@ class UVMPacker(object):
                     size, max_size))
             return
         else:
+            all_bits = 0
             for i in range(len(value)):
-                int_num = value[i]
-                if self.big_endian == 1:
-                    int_num = self.flip_bit_order(value[len(value)-1-i],
-                        SIZEOF_INT)
-                self.m_bits |= int_num << self.count
-                self.count += SIZEOF_INT
+                all_bits |= (value[i] & MASK_INT) << (i * SIZEOF_INT)
+            self.pack_field_int(all_bits, size)
 
 
     #  // Function: pack_string
-- 
2.43.0


From e1573f9e147885cc501840a3bc42aaf23762acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 034/172] fix: unpack_bytes and unpack_ints continue where the
 last unpack ended and honour a partial size

---
 src/uvm/base/uvm_packer.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 465241a..2a7cbc6 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -447,14 +447,12 @@ class UVMPacker(object):
             return []
         else:
             if self.enough_bits(size, "integral"):
-                self.count += size
-                for b in range(len(value)):
-                    byte = (self.m_bits >> b * 8) & 0xFF
-                    if self.big_endian == 1:
-                        byte = self.flip_bit_order(byte, 8)
-                        value[len(value)-1-b] = byte
-                    else:
-                        value[b] = byte
+                all_bits = self.unpack_field_int(size)
+                for i in range(len(value)):
+                    nbits = min(max(size - i * 8, 0), 8)
+                    mask = (1 << nbits) - 1
+                    byte = (all_bits >> (i * 8)) & mask
+                    value[i] = (value[i] & ~mask) | byte
             return value
 
 
@@ -498,14 +496,12 @@ class UVMPacker(object):
             return
         else:
             if self.enough_bits(size, "integral"):
-                self.count += size
+                all_bits = self.unpack_field_int(size)
                 for i in range(len(value)):
-                    int_num = (self.m_bits >> i * SIZEOF_INT) & 0xFFFFFFFF
-                    if self.big_endian == 1:
-                        int_num = self.flip_bit_order(int_num, SIZEOF_INT)
-                        value[len(value)-1-i] = int_num
-                    else:
-                        value[i] = int_num
+                    nbits = min(max(size - i * SIZEOF_INT, 0), SIZEOF_INT)
+                    mask = (1 << nbits) - 1
+                    int_num = (all_bits >> (i * SIZEOF_INT)) & mask
+                    value[i] = (value[i] & ~mask) | int_num
             return value
 
 
-- 
2.43.0


From 088a40eb0aac25bfb16a6a25b05ea7d277c4162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 035/172] fix: strings packed big-endian are unpacked as they
 were, empty ones included

---
 src/uvm/base/uvm_packer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 2a7cbc6..9caf45a 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -275,11 +275,7 @@ class UVMPacker(object):
         bytearr = value.encode()
 
         size = 8 * len(bytearr)
-        bits = int(bytearr.hex(), 16)
-        if self.big_endian == 1:
-            bits = self.flip_bit_order(bits, -1)
-        self.m_bits |= bits << self.count
-        self.count += size
+        self.pack_field_int(int.from_bytes(bytearr, 'big'), size)
         if self.use_metadata == 1:
             pass
             # TODO self.m_bits |= 0 << self.count
@@ -539,10 +535,14 @@ class UVMPacker(object):
             #        b[7-j] = self.m_bits[count+j]
             #  unpack_string[i] = b
             i += 1
-            byte_arr.insert(0, curr_byte)
+            if self.big_endian == 1:
+                byte_arr.append(self.flip_bit_order(curr_byte, 8))
+            else:
+                byte_arr.insert(0, curr_byte)
             self.count += 8
             curr_byte = (self.m_bits >> self.count) & 0xFF
-        if self.enough_bits(8,"string", is_error=False):
+        if is_null_term and (self.use_metadata == 1 or
+                self.m_packed_size - self.count >= 8):
             self.count += 8
         return byte_arr.decode()
         #return unpack_string
-- 
2.43.0


From e2c4f3e309add87b6615c34ef00340da6d77e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 036/172] fix: the packer writes the metadata it reads back,
 and packs None objects

---
 src/uvm/base/uvm_packer.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 9caf45a..db3d87e 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -277,8 +277,7 @@ class UVMPacker(object):
         size = 8 * len(bytearr)
         self.pack_field_int(int.from_bytes(bytearr, 'big'), size)
         if self.use_metadata == 1:
-            pass
-            # TODO self.m_bits |= 0 << self.count
+            self.count += 8
         #  byte b
         #  foreach (value[index]):
         #    if(self.big_endian == 0)
@@ -327,6 +326,11 @@ class UVMPacker(object):
     #
     #  extern def pack_object(self,uvm_object value):
     def pack_object(self, value) -> None:
+        if value is None:
+            if self.use_metadata == 1:
+                self.count += 4
+            return
+
         if value in value._m_uvm_status_container.cycle_check:
             uvm_warning("CYCFND", sv.sformatf("Cycle detected for object @%0d during pack",
                 value.get_inst_id()))
@@ -336,18 +340,15 @@ class UVMPacker(object):
 
         if((self.policy != UVM_REFERENCE) and value is not None):
             if self.use_metadata == 1:
-                pass
-                #self.m_bits[count +: 4] = 1
-                #count += 4; // to better debug when display packed bits in hexadecimal
+                self.m_bits |= 1 << self.count
+                self.count += 4  # to better debug when display packed bits in hexadecimal
 
             self.scope.down(value.get_name())
             value._m_uvm_field_automation(None, UVM_PACK,"")
             value.do_pack(self)
             self.scope.up()
         elif self.use_metadata == 1:
-            pass
-            #self.m_bits[count +: 4] = 0
-            #count += 4
+            self.count += 4
         del value._m_uvm_status_container.cycle_check[value]
 
 
@@ -584,14 +585,15 @@ class UVMPacker(object):
     def unpack_object(self, value):
         is_non_null = 1
 
-        if value in value._m_uvm_status_container.cycle_check:
-            uvm_warning("CYCFND", sv.sformatf(
-                "Cycle detected for object @%0d during unpack", value.get_inst_id()))
-            return
-        value._m_uvm_status_container.cycle_check[value] = 1
+        if value is not None:
+            if value in value._m_uvm_status_container.cycle_check:
+                uvm_warning("CYCFND", sv.sformatf(
+                    "Cycle detected for object @%0d during unpack", value.get_inst_id()))
+                return
+            value._m_uvm_status_container.cycle_check[value] = 1
 
         if self.use_metadata == 1:
-            is_non_null = get_bits(self.m_bits, self.count, 4) != 0  # [count +: 4]
+            is_non_null = int((self.m_bits >> self.count) & 0xF != 0)  # [count +: 4]
             self.count += 4
 
         # NOTE- policy is a ~pack~ policy, not unpack policy;
@@ -609,7 +611,8 @@ class UVMPacker(object):
                 #       this does not nullify argument; need to pass obj by ref
         elif ((is_non_null != 0) and (value is None)):
              uvm_error("UNPOBJ","cannot unpack into None object")
-        del value._m_uvm_status_container.cycle_check[value]
+        if value is not None:
+            del value._m_uvm_status_container.cycle_check[value]
 
 
     #  // Function: get_packed_size
-- 
2.43.0


From da2618599feff474330f3792fc1a32c779f7d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 037/172] fix: an object can be unpacked from bits whose
 topmost ones are zero

---
 src/uvm/base/uvm_packer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index db3d87e..fc9b13f 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -144,6 +144,7 @@ class UVMPacker(object):
         self.policy = UVM_DEFAULT_POLICY
         self.m_bits = 0x0  # uvm_pack_bitstream_t
         self.m_packed_size = 0
+        self.m_zero_extend = False
 
 
     #  // Function: pack_field
@@ -694,6 +695,8 @@ class UVMPacker(object):
         #
         self.m_bits = bitstream
         self.m_packed_size = len(bin(self.m_bits)) - 2
+        # An int does not tell how many zero bits it has at the top
+        self.m_zero_extend = True
         self.count = 0
 
     #  extern def put_bytes(self,ref byte unsigned bytestream[]):
@@ -713,6 +716,8 @@ class UVMPacker(object):
     #  extern def enough_bits(self,int needed, string id):
     def enough_bits(self, needed, id, is_error=True):
         if ((self.m_packed_size - self.count) < needed):
+            if self.m_zero_extend:
+                return 1
             if is_error is True:
                 uvm_error("PCKSZ",
                     sv.sformatf("%0d bits needed to unpack %0s, yet only %0d available.",
@@ -724,6 +729,7 @@ class UVMPacker(object):
     def reset(self):
         self.count = 0
         self.m_bits = 0
+        self.m_zero_extend = False
         self.m_packed_size = 0
 
     def flip_bit_order(self, value, size: int) -> int:
-- 
2.43.0


From acbbb20bc4299e54da33286e488c26ef36e9666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 038/172] fix: objects can be unpacked from bytes and ints

---
 src/uvm/base/uvm_packer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index fc9b13f..278114c 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -700,7 +700,21 @@ class UVMPacker(object):
         self.count = 0
 
     #  extern def put_bytes(self,ref byte unsigned bytestream[]):
+    def put_bytes(self, bytestream):
+        self.m_put_words(bytestream, 8)
+
     #  extern def put_ints(self,ref int unsigned intstream[]):
+    def put_ints(self, intstream):
+        self.m_put_words(intstream, SIZEOF_INT)
+
+    def m_put_words(self, words, nbits):
+        self.reset()
+        for i in range(len(words)):
+            v = words[i] & ((1 << nbits) - 1)
+            if self.big_endian:
+                v = self.flip_bit_order(v, nbits)
+            self.m_bits |= v << (i * nbits)
+        self.m_packed_size = len(words) * nbits
 
 
     def set_packed_size(self):
-- 
2.43.0


From 4e27b67cbd8d5916542047bc723040e35edb93e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 039/172] fix: zero-size fields can be packed big-endian

---
 src/uvm/base/uvm_packer.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 278114c..ac4bf03 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -748,18 +748,14 @@ class UVMPacker(object):
 
     def flip_bit_order(self, value, size: int) -> int:
         flipped = 0x0
-        num_bits = len(bin(value)) - 2
-        while value:
+        if size == -1:
+            size = len(bin(value)) - 2
+        if value >> size:
+            raise Exception("value does not fit. size: {}, value: {}".format(
+                size, hex(value)))
+        for _ in range(size):
             flipped = (flipped << 1) + (value & 0x1)  # Choose LSB
             value = value >> 1
-        # For packing, need to add some right-padding
-        if size != -1:
-            rem_bits = size - num_bits
-            if rem_bits >= 0:
-                flipped <<= rem_bits
-            else:
-                raise Exception("rem_bits negative. size: {}, value: {}".format(
-                    size, hex(value)))
         return flipped
 
 
-- 
2.43.0


From c4c9111061ffdd2d97bd88178182c1925117824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 040/172] fix: compare_field compares exactly size bits, also
 above 64

---
 src/uvm/base/uvm_comparer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/uvm/base/uvm_comparer.py b/src/uvm/base/uvm_comparer.py
index 0651039..2048e15 100644
--- a/src/uvm/base/uvm_comparer.py
+++ b/src/uvm/base/uvm_comparer.py
@@ -167,10 +167,7 @@ class UVMComparer:
         Returns:
 
         """
-        mask = 0
-        msg = ""
-        if size <= 64:
-            return self.compare_field_int(name, lhs, rhs, size, radix)
+        return self.compare_field_int(name, lhs, rhs, size, radix)
         #
         #    mask = -1
         #    mask >>= (UVM_STREAMBITS-size)
@@ -237,8 +234,9 @@ class UVMComparer:
         """
         mask = 0x0
         msg = ""
-        mask = -1
-        mask >>= (64-size)
+        mask = -1  # size of 0 means that the size is not known
+        if size > 0:
+            mask = (1 << size) - 1
         if (lhs & mask) != (rhs & mask):
             UVMObject._m_uvm_status_container.scope.set_arg(name)
             msg = "lhs = {} : rhs = {}".format(lhs, rhs)
-- 
2.43.0


From 058a700c81a5f1d3d620d26ee0aa0040b82f4088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 041/172] fix: object miscompares are reported with the
 verbosity of the comparer

---
 src/uvm/base/uvm_comparer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_comparer.py b/src/uvm/base/uvm_comparer.py
index 2048e15..80ed6e9 100644
--- a/src/uvm/base/uvm_comparer.py
+++ b/src/uvm/base/uvm_comparer.py
@@ -446,8 +446,8 @@ class UVMComparer:
                 rhs_id = rhs.get_inst_id()
             root.uvm_report(self.sev, "MISCMP",
                 sv.sformatf("Miscompare for %0s: lhs = @%0d : rhs = @%0d",
-                UVMObject._m_uvm_status_container.scope.get(), lhs_id, rhs_id,
-                self.verbosity, "`uvm_file", "`uvm_line"))
+                UVMObject._m_uvm_status_container.scope.get(), lhs_id, rhs_id),
+                self.verbosity, "`uvm_file", "`uvm_line")
 
             self.miscompares = sv.sformatf("%s%s: lhs = @%0d : rhs = @%0d",
                 self.miscompares, UVMObject._m_uvm_status_container.scope.get(),
-- 
2.43.0


From 9d73e726470b4aa38ad9c9602ab8d0dca3208429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 042/172] fix: comparing with None fails instead of raising,
 and nested compares do not reset the result

---
 src/uvm/base/uvm_object.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 53ea3b8..800e762 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -598,7 +598,8 @@ class UVMObject(sv_obj):
             cls._m_uvm_status_container.comparer = uvm_default_comparer
         comparer = cls._m_uvm_status_container.comparer
 
-        if(not cls._m_uvm_status_container.scope.depth()):
+        is_top = cls._m_uvm_status_container.scope.depth() == 0
+        if is_top:
             comparer.compare_map.delete()
             comparer.result = 0
             comparer.miscompares = ""
@@ -609,17 +610,8 @@ class UVMObject(sv_obj):
                 cls._m_uvm_status_container.scope.down(self.get_name())
 
         if(not done and (rhs is None)):
-            if(cls._m_uvm_status_container.scope.depth()):
-                comparer.print_msg_object(self, rhs)
-            else:
-                comparer.print_msg_object(self, rhs)
-                uvm_report_info("MISCMP",
-                     sv.sformatf("%0d Miscompare(s) for object %s@%0d vs. None",
-                     comparer.result,
-                     cls._m_uvm_status_container.scope.get(),
-                      self.get_inst_id()),
-                      cls._m_uvm_status_container.comparer.verbosity)
-                done = 1
+            comparer.print_msg_object(self, rhs)
+            done = 1
 
         if(not done and comparer.compare_map.exists(rhs)):
             if(comparer.compare_map[rhs] != self):
@@ -637,7 +629,7 @@ class UVMObject(sv_obj):
             self._m_uvm_field_automation(rhs, UVM_COMPARE, "")
             dc = self.do_compare(rhs, comparer)
 
-        if cls._m_uvm_status_container.scope.depth() == 1:
+        if is_top:
             cls._m_uvm_status_container.scope.up()
 
         if rhs is not None:
-- 
2.43.0


From 77ff6771b7e4b1c0d81c0ff74f3b015a0cefd1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 043/172] fix: an object differs when do_compare of its
 sub-object says so

---
 src/uvm/base/uvm_comparer.py | 3 +++
 src/uvm/base/uvm_object.py   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/uvm/base/uvm_comparer.py b/src/uvm/base/uvm_comparer.py
index 80ed6e9..1306a43 100644
--- a/src/uvm/base/uvm_comparer.py
+++ b/src/uvm/base/uvm_comparer.py
@@ -333,6 +333,9 @@ class UVMComparer:
 
         UVMObject._m_uvm_status_container.scope.down(name)
         res = lhs.compare(rhs, self)
+        if not res and self.result == 0:
+            # Only do_compare of the object says that they differ
+            self.print_msg_object(lhs, rhs)
         UVMObject._m_uvm_status_container.scope.up()
         return res
 
diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 800e762..0b27841 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -616,6 +616,8 @@ class UVMObject(sv_obj):
         if(not done and comparer.compare_map.exists(rhs)):
             if(comparer.compare_map[rhs] != self):
                 comparer.print_msg_object(self, comparer.compare_map[rhs])
+            else:
+                dc = 1
             done = 1  # don't do any more work after this case, but do cleanup
 
         if(not done and comparer.check_type and (rhs is not None) and
-- 
2.43.0


From ec632413f57c7f97755511f07345b6c037d9034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 044/172] fix: scope of an array element is a string

---
 src/uvm/base/uvm_scope_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_scope_stack.py b/src/uvm/base/uvm_scope_stack.py
index c59345c..3b1bb3e 100644
--- a/src/uvm/base/uvm_scope_stack.py
+++ b/src/uvm/base/uvm_scope_stack.py
@@ -95,7 +95,7 @@ class UVMScopeStack:
 
     def set_arg_element(self, arg, ele):
         tmp_value_str = str(ele)
-        self.m_arg = {arg, "[", tmp_value_str, "]"}
+        self.m_arg = arg + "[" + tmp_value_str + "]"
 
     def unset_arg(self, arg):
         if arg == self.m_arg:
-- 
2.43.0


From b6a2db70c3116a4bb87436f5f88eaf888371c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 045/172] fix: field macros of a derived class leave those of
 its base class alone

---
 src/uvm/macros/uvm_object_defines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 03656bb..13c5f20 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -121,9 +121,9 @@ def uvm_object_utils_end(T):
 
 def uvm_field_utils_start(T):
     # Create static member containers for var names and masks
-    if not hasattr(T, "_m_uvm_field_names"):
+    if "_m_uvm_field_names" not in T.__dict__:
         setattr(T, "_m_uvm_field_names", [])
-    if not hasattr(T, "_m_uvm_field_masks"):
+    if "_m_uvm_field_masks" not in T.__dict__:
         setattr(T, "_m_uvm_field_masks", {})
 
     def _m_uvm_field_automation(self, rhs, what__, str__):
-- 
2.43.0


From 15c1dbcd6a74441b1e9d0a692e1b228ad36872ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 046/172] fix: field automation copies shared objects once and
 containers by value, and honours UVM_REFERENCE

---
 src/uvm/macros/uvm_object_defines.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 13c5f20..f0dce31 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -150,7 +150,14 @@ def uvm_field_utils_start(T):
                 mask_v = masks[v]
                 if not(mask_v & UVM_NOCOPY) and (mask_v & UVM_COPY != 0):
                     v_attr = getattr(rhs, v)
-                    if hasattr(v_attr, "clone"):
+                    if mask_v & UVM_REFERENCE:
+                        setattr(self, v, v_attr)
+                    elif isinstance(v_attr, (list, dict)):
+                        setattr(self, v, v_attr.copy())
+                    elif (isinstance(v_attr, UVMObject) and
+                            v_attr in UVMObject.uvm_global_copy_map):
+                        setattr(self, v, UVMObject.uvm_global_copy_map[v_attr])
+                    elif hasattr(v_attr, "clone"):
                         setattr(self, v, v_attr.clone())
                     else:
                         setattr(self, v, v_attr)
-- 
2.43.0


From be91be35baa1394fb1d07f640ac05b923cc01be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 047/172] fix: field automation finds differences in fields of
 any type, and compares objects of different types

---
 src/uvm/macros/uvm_object_defines.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index f0dce31..477704e 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -164,20 +164,25 @@ def uvm_field_utils_start(T):
         elif what__ == UVM_COMPARE:
             for v in vals:
                 mask_v = masks[v]
+                if not hasattr(rhs, v):
+                    continue
                 if not(mask_v & UVM_NOCOMPARE) and (mask_v & UVM_COMPARE != 0):
                     v_attr_rhs = getattr(rhs, v)
                     v_attr_self = getattr(self, v)
                     # Try simple equality first
                     if v_attr_rhs != v_attr_self:
-                        if isinstance(v_attr_self, int):
+                        if isinstance(v_attr_self, int) and isinstance(v_attr_rhs, int):
                             T_cont.comparer.compare_field(v,
                                 v_attr_self, v_attr_rhs, 0)
-                        elif isinstance(v_attr_self, str):
+                        elif isinstance(v_attr_self, str) and isinstance(v_attr_rhs, str):
                             T_cont.comparer.compare_string(v,
-                                v_attr_self, v_attr_rhs, 0)
-                        elif hasattr(v_attr_self, "compare"):
+                                v_attr_self, v_attr_rhs)
+                        elif hasattr(v_attr_self, "compare") and not (mask_v & UVM_REFERENCE):
                             T_cont.comparer.compare_object(v,
                                 v_attr_self, v_attr_rhs)
+                        else:
+                            T_cont.comparer.compare_field_real(v,
+                                v_attr_self, v_attr_rhs)
 
                         if (T_cont.comparer.result and
                                 T_cont.comparer.show_max <= T_cont.comparer.result):
-- 
2.43.0


From b719b58bb425f3f68452f69b26cdf3d996405907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 048/172] fix: field automation prints fields in the radix
 given for them

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 477704e..33b5f69 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -197,7 +197,7 @@ def uvm_field_utils_start(T):
 
                     if isinstance(v_attr_self, int):
                         T_cont.printer.print_field(v, v_attr_self,
-                            sv.bits(v_attr_self), (what__ & UVM_RADIX))
+                            sv.bits(v_attr_self), (mask_v & UVM_RADIX))
                     elif isinstance(v_attr_self, UVMObject):
                         if mask_v & UVM_REFERENCE:
                             T_cont.printer.print_object_header(v, v_attr_self)
-- 
2.43.0


From c4af3f4d70831102e912edcb88fbb5aa58753cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 049/172] fix: copying from an object of a base type copies the
 fields it has

---
 src/uvm/macros/uvm_object_defines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 33b5f69..d70e8da 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -148,6 +148,8 @@ def uvm_field_utils_start(T):
         if what__ == UVM_COPY:
             for v in vals:
                 mask_v = masks[v]
+                if not hasattr(rhs, v):
+                    continue
                 if not(mask_v & UVM_NOCOPY) and (mask_v & UVM_COPY != 0):
                     v_attr = getattr(rhs, v)
                     if mask_v & UVM_REFERENCE:
-- 
2.43.0


From caec97a366f6b2034ae7e0417cf28a2b2c16d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 050/172] fix: glob expressions match whole names, + stands for
 one or more characters, and /regular expressions/ work

---
 src/uvm/base/sv.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 8a4a0f4..0e2ca62 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -44,7 +44,12 @@ RET_OK = 0
 
 
 def uvm_re_match(rex, _str):
-    m = re.search(rex, _str)
+    if rex == "":  # No expression: matches everything
+        return RET_OK
+    if len(rex) > 1 and rex[0] == "/" and rex[-1] == "/":
+        m = re.search(rex[1:-1], _str)
+    else:
+        m = re.fullmatch(rex, _str, re.DOTALL)
     if m is not None:
         return RET_OK
     return RET_ERR
@@ -60,15 +65,10 @@ def uvm_glob_to_re(_str: str) -> str:
     """
     if _str is None or _str == "":
         return ""
-    if _str[0] == "/" and _str[-1] == "/":
+    if len(_str) > 1 and _str[0] == "/" and _str[-1] == "/":
         return _str
-    res = _str.replace('.', '\\.')
-    res = res.replace('*', '.*')
-    res = res.replace('[', '\\[')
-    res = res.replace(']', '\\]')
-    res = res.replace('?', '.')
-    # TODO add more substitutions
-    return res
+    wildcards = {"*": ".*", "+": ".+", "?": ".", "^": "^", "$": "$"}
+    return "".join(wildcards.get(c, re.escape(c)) for c in _str)
 
 
 def uvm_split_string(_str, sep: str, split_vals: List[str]) -> List[str]:
-- 
2.43.0


From cd5ca29dd79ce789bdae742b9c9b33ec65774550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 051/172] fix: a failed resource lookup falls back to relative
 scopes

---
 src/uvm/base/uvm_resource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 0a8617d..1ec3fa3 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1316,7 +1316,11 @@ class UVMResourcePool:
         q = []  # uvm_resource_types::rsrc_q_t q
         rsrc = None  # uvm_resource_base rsrc
         q = self.lookup_name(scope, name, type_handle, rpterr)
-        #
+
+        # Nothing set for this scope, try resources whose scope is a part of it
+        if len(q) == 0 and name != "" and name in self.rtab:
+            q = [r for r in self.rtab[name] if uvm_re_match("/" + r.get_scope() + "/", scope) == 0]
+
         if len(q) == 0:
             self.push_get_record(name, scope, None)
             return None
-- 
2.43.0


From 53f921081c166b4d8651176079d3fb0e70f3274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 052/172] fix: setting a configuration value again gives it
 priority over older ones

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 1ec3fa3..f2c2f5c 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1518,7 +1518,7 @@ class UVMResourcePool:
         q.pop(i)
 
         if pri == PRI_HIGH:
-            q.append(rsrc)
+            q.insert(0, rsrc)
         elif pri == PRI_LOW:
             q.append(rsrc)
 
-- 
2.43.0


From 37cc23946fcf326e5ef9ff3889556e278edf3e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 053/172] fix: resources are sorted by precedence, highest
 first

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index f2c2f5c..da97f0e 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1283,7 +1283,7 @@ class UVMResourcePool:
                 _all[r.precedence] = UVMQueue()
             _all[r.precedence].push_front(r)  # since we will push_front in the final
         qq = []
-        for key in _all:
+        for key in sorted(_all):
             for j in range(len(_all[key])):
                 r = _all[key].get(j)
                 #qq.push_front(r)
-- 
2.43.0


From ea3f56a0284ca5022e66671b66cea6d2ea2b6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 054/172] fix: configuration settings of a component are
 applied lowest precedence first

---
 src/uvm/base/uvm_component.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 032489a..af991b5 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -1216,11 +1216,12 @@ class UVMComponent(UVMReportObject):
         # // rq is in precedence order now, so we have to go through in reverse
         # // order to do the settings.
         #  for(int i=rq.size()-1; i>=0; --i):
-        for i in range(len(rq)):
+        for i in reversed(range(len(rq))):
 
             r = rq[i]
             name = r.get_name()
             # // does name have brackets [] in it?
+            j = 0
             while j < len(name):
                 if (name[j] == "[" or name[j] == "."):
                     break
-- 
2.43.0


From a5df3143c11d7f8c2345f799047fb73d9a8f7d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 055/172] fix: an agent takes is_active from the setting of
 highest precedence

---
 src/uvm/comps/uvm_agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/comps/uvm_agent.py b/src/uvm/comps/uvm_agent.py
index 34afc24..6892070 100644
--- a/src/uvm/comps/uvm_agent.py
+++ b/src/uvm/comps/uvm_agent.py
@@ -76,6 +76,7 @@ class UVMAgent(UVMComponent):
             rsrc = rq[i]  # uvm_resource_base
             rap = rsrc
             self.is_active = rap.read(self)
+            break  # settings are sorted, highest precedence first
 
     type_name = "uvm_agent"
 
-- 
2.43.0


From 45551aa9e4a51b179f3999a45bc595e0147a7260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 056/172] fix: a configuration value can be looked up by its
 type

---
 src/uvm/base/uvm_resource.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index da97f0e..ab70bb4 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -871,7 +871,7 @@ class UVMResource(UVMResourceBase):
             q_val = q[first]
             if T is not None:
                 arr_rsrc = []
-                if sv.cast(arr_rsrc, q_val, T):
+                if sv.cast(arr_rsrc, q_val.val, T):
                     rsrc = q_val
                     break
             else:
@@ -890,7 +890,7 @@ class UVMResource(UVMResourceBase):
         for i in range(first + 1, len(q)):
             if T is not None:
                 arr_r = []
-                if sv.cast(arr_r, q[i], T):
+                if sv.cast(arr_r, q[i].val, T):
                     r = q[i]
                     if r.precedence > prec:
                         rsrc = r
-- 
2.43.0


From fc92c2792813d4bce8138e10e2141d9f70c902e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 057/172] fix: UVMConfigDb.exists agrees with UVMConfigDb.get

---
 src/uvm/base/uvm_config_db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_config_db.py b/src/uvm/base/uvm_config_db.py
index 9440e9c..2b96f7b 100644
--- a/src/uvm/base/uvm_config_db.py
+++ b/src/uvm/base/uvm_config_db.py
@@ -287,8 +287,8 @@ class UVMConfigDb(UVMResourceDb):
             inst_name = cntxt.get_full_name()
         elif cntxt.get_full_name() != "":
             inst_name = cntxt.get_full_name() + "." + inst_name
-        found_val = UVMResourceDb.get_by_name(inst_name,field_name,spell_chk)
-        return found_val is not None
+        rq = UVMResourcePool.get().lookup_name(inst_name, field_name, None, spell_chk)
+        return len(rq) > 0
 
     #  // Function: wait_modified
     #  //
-- 
2.43.0


From 3aaf230b353d9f6c2c3b1a3f35e25e352b2aab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 058/172] fix: a type override by name leaves the registered
 type of that name alone

---
 src/uvm/base/uvm_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 91c943a..68b29ed 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -333,7 +333,6 @@ class UVMDefaultFactory(UVMFactory):
                            ovrd_type=override_type)
 
             self.m_type_overrides.append(override)
-            self.m_type_names.add(original_type_name, override.ovrd_type)
 
     def check_inst_override_exists(self, original_type, override_type,
             full_inst_path):
-- 
2.43.0


From 48a9b00fb41af28850e7b59a530fbf70a8679656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 059/172] fix: creating by name a type overridden by itself is
 not reported as a loop

---
 src/uvm/base/uvm_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 68b29ed..5df36ef 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -640,10 +640,14 @@ class UVMDefaultFactory(UVMFactory):
                         lindex = self.m_type_overrides[index]
                 else:
                     self.m_type_overrides[index].used += 1
+                    if self.m_type_overrides[index].ovrd_type == rtype:
+                        return rtype
                     return self.find_override_by_type(self.m_type_overrides[index].ovrd_type,full_inst_path)
 
         if UVMDefaultFactory.m_debug_pass and override is not None:
             lindex.used += 1
+            if override == rtype:
+                return rtype
             return self.find_override_by_type(override, full_inst_path)
 
         # No override found
-- 
2.43.0


From ec104e12a1e107af087408b703c0c950161b718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 060/172] fix: UVMObjection.set_drain_time ignored the drain
 time of any object but the top

---
 src/uvm/base/uvm_objection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index d36934c..d6059be 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -847,7 +847,7 @@ class UVMObjection(UVMReportObject):
     async def m_forked_drain(self, obj, source_obj, description="", count=1,
             in_top_thread=0):
 
-        if obj in self.m_drain_time:
+        if self.m_drain_time.get(obj, 0) != 0:
             # TODO `uvm_delay(self.m_drain_time[obj])
             await Timer(self.m_drain_time[obj])
 
@@ -899,7 +899,7 @@ class UVMObjection(UVMReportObject):
     def set_drain_time(self, obj=None, drain=0):
         if obj is None:
             obj = self.m_top
-            self.m_drain_time[obj] = drain
+        self.m_drain_time[obj] = drain
 
     #  //----------------------
     #  // Group: Callback Hooks
-- 
2.43.0


From da56151caf9beb28da378b63e4191694cf368b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 061/172] fix: objections dropped in the same step were not all
 drained

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index d6059be..0f54d47 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -777,7 +777,7 @@ class UVMObjection(UVMReportObject):
             await UVMObjection.m_scheduled_list_not_empty_event.wait()
             UVMObjection.m_scheduled_list_not_empty_event.clear()
 
-            if len(UVMObjection.m_scheduled_list) != 0:
+            while len(UVMObjection.m_scheduled_list) != 0:
                 # Save off the context before the fork
                 c = UVMObjection.m_scheduled_list.pop(0)
 
-- 
2.43.0


From 67a21f343debd9040ac2486a1498ed76077d10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 062/172] fix: raising an objection again did not stop its
 running drain

---
 src/uvm/base/uvm_objection.py | 49 ++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 0f54d47..46e087c 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -514,16 +514,7 @@ class UVMObjection(UVMReportObject):
                 ctxt = self.m_forked_contexts[obj]
                 del self.m_forked_contexts[obj]
                 # Kill the drain
-
-        uvm_debug(self, 'm_raise', obj.get_name() + " ENDING FUNC")
-        # TODO
-        #if UVM_USE_PROCESS_CONTAINER:
-        #    self.m_drain_proc[obj].kill()
-        #    del self.m_drain_proc[obj]
-        #else:
-        #    self.m_drain_proc[obj].p.kill()
-        #    del self.m_drain_proc[obj]
-        uvm_debug(self, 'm_raise', obj.get_name() + " NEVER GETS HERE")
+                self.m_kill_drain(obj)
 
         if ctxt is None:
             # If there were no drains, just propagate as usual
@@ -790,14 +781,16 @@ class UVMObjection(UVMReportObject):
                 # The fork will guard the m_forked_drain call, but
                 # a re-raise can kill self.m_forked_list contexts in the delta
                 # before the fork executes.
-                pproc = cocotb.start_soon(cls.m_execute_scheduled_forks_fork_join_none(c))
+                proc = []
+                proc.append(cocotb.start_soon(
+                    cls.m_execute_scheduled_forks_fork_join_none(c, proc)))
                 #else:
                 #    uvm_error("UVMObjection", "Null objection in objection context")
 
 
     @classmethod
     async def m_execute_scheduled_forks_fork_join_none(cls,
-            c: 'UVMObjectionContextObject'):
+            c: 'UVMObjectionContextObject', proc):
         objection = c.objection  # automatic uvm_objection
         # Check to maike sure re-raise didn't empty the fifo
         uvm_debug(cls, 'm_execute_scheduled_forks_fork_join_none', 'check list len')
@@ -811,25 +804,17 @@ class UVMObjection(UVMReportObject):
             objection.m_forked_contexts[ctxt.obj] = ctxt
             # Save off our process handle, so a re-raise can kill it...
 
-            # TODO
-            #if UVM_USE_PROCESS_CONTAINER == 0:
-            #    objection.m_drain_proc[ctxt.obj] = process::self()
-            #else:
-            #    process_container_c c = new(process::self())
-            #    objection.m_drain_proc[ctxt.obj]=c
+            obj = ctxt.obj
+            objection.m_drain_proc[obj] = proc[0]
 
             # Execute the forked drain
             await objection.m_forked_drain(ctxt.obj, ctxt.source_obj, ctxt.description,
                     ctxt.count, 1)
             # Cleanup if we survived (no re-raises)
-            if ctxt.obj in objection.m_drain_proc:
-                del objection.m_drain_proc[ctxt.obj]
-            else:
-                pass
-
-            # tpoikela: Added check since ctxt.obj becomes None
-            #if ctxt.obj in objection.m_forked_contexts:
-            del objection.m_forked_contexts[ctxt.obj]
+            if objection.m_drain_proc.get(obj) is not proc[0]:
+                return
+            del objection.m_drain_proc[obj]
+            del objection.m_forked_contexts[obj]
             # Clear out the context object (prevent memory leaks)
             ctxt.clear()
             # Save the context in the pool for later reuse
@@ -846,6 +831,7 @@ class UVMObjection(UVMReportObject):
 
     async def m_forked_drain(self, obj, source_obj, description="", count=1,
             in_top_thread=0):
+        proc = self.m_drain_proc.get(obj)
 
         if self.m_drain_time.get(obj, 0) != 0:
             # TODO `uvm_delay(self.m_drain_time[obj])
@@ -860,6 +846,10 @@ class UVMObjection(UVMReportObject):
         await uvm_zero_delay()
         # TODO wait fork
 
+        # a re-raise (or clear) from within all_dropped ends the drain
+        if self.m_drain_proc.get(obj) is not proc:
+            return
+
         # we are ready to delete the 0-count entries for the current
         # object before propagating up the hierarchy.
         if obj in self.m_source_count and self.m_source_count[obj] == 0:
@@ -873,6 +863,13 @@ class UVMObjection(UVMReportObject):
         elif obj != self.m_top:
             self.m_propagate(obj, source_obj, description, count, 0, 1)
 
+    def m_kill_drain(self, obj):
+        """ Ends the running drain of obj, if any. A process cannot kill itself,
+        it ends when all_dropped returns."""
+        proc = self.m_drain_proc.pop(obj, None)
+        if proc is not None and proc is not cocotb.scheduler._current_task:
+            proc.kill()
+
     #  // m_init_objections
     #  // -----------------
     #
-- 
2.43.0


From 879b74155294ba0a3b2b45737297f8061d9bd083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 063/172] fix: UVMObjection.clear failed or did not warn while
 drains were under way

---
 src/uvm/base/uvm_objection.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 46e087c..c22599d 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -711,7 +711,7 @@ class UVMObjection(UVMReportObject):
         if name == "":
             name = "uvm_top"
 
-        if (self.m_top_all_dropped is False and
+        if (not self.m_top_all_dropped and
                 self.get_objection_total(self.m_top) > 0):
             uvm_report_warning("OBJTN_CLEAR",("Object '" + name
                 + "' cleared objection counts for " + self.get_name()))
@@ -735,23 +735,16 @@ class UVMObjection(UVMReportObject):
         while len(self.m_forked_list) > 0:
             self.m_forked_list[0].clear()
             UVMObjection.m_context_pool.append(self.m_forked_list[0])
-            front = self.m_forked_list[0]
-            self.m_forked_list[0].remove(front)
+            self.m_forked_list.pop(0)
 
         # running drains have a context and a process
-        for o in self.m_forked_contexts:
-            if UVM_USE_PROCESS_CONTAINER:
-                self.m_drain_proc[o].kill()
-                del self.m_drain_proc[o]
-            else:
-                self.m_drain_proc[o].p.kill()
-                del self.m_drain_proc[o]
-
+        for o in list(self.m_forked_contexts):
+            self.m_kill_drain(o)
             self.m_forked_contexts[o].clear()
             UVMObjection.m_context_pool.append(self.m_forked_contexts[o])
             del self.m_forked_contexts[o]
 
-        self.m_top_all_dropped = False
+        self.m_top_all_dropped = 0
         self.m_cleared = 1
         if self.m_top in self.m_events:
             self.m_events[self.m_top].all_dropped.set()
-- 
2.43.0


From b0f43e67fc629c427961007be080a96135726d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 064/172] fix: tracing an objection failed for its parents

---
 src/uvm/base/uvm_objection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index c22599d..74a92b3 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -295,24 +295,25 @@ class UVMObjection(UVMReportObject):
             uvm_report_info("OBJTN_TRC",
                 sv.sformatf("Object %0s %0s %0d objection(s)%s: count=%0d  total=%0d",
                 name, action, count, descr, _count, _total), UVM_NONE)
+            return
         else:
             cpath = 0
             last_dot = 0
             sname = source_obj.get_full_name()
             nm = obj.get_full_name()
-            _max = sname.len()
-            if sname.len() > nm.len():
-                _max = nm.len()
+            _max = len(sname)
+            if len(sname) > len(nm):
+                _max = len(nm)
 
             # For readability, only print the part of the source obj hierarchy underneath
             # the current object.
-            while ((sname[cpath] == nm[cpath]) and (cpath < _max)):
+            while cpath < _max and sname[cpath] == nm[cpath]:
                 if (sname[cpath] == "."):
                     last_dot = cpath
                 cpath += 1
 
             if last_dot:
-                sname = sname.substr(last_dot+1, sname.len())
+                sname = sname[last_dot+1:]
 
         name = obj.get_full_name()
         if name == "":
-- 
2.43.0


From 4f224d9cf3ffa8ec52df6a0bc7adad60fbb9878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 065/172] fix: UVMObjection could not be copied

---
 src/uvm/base/uvm_objection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 74a92b3..601f987 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1153,10 +1153,10 @@ class UVMObjection(UVMReportObject):
 
     def do_copy(self, rhs):
         _rhs = rhs
-        self.m_source_count = _rhs.m_source_count
-        self.m_total_count  = _rhs.m_total_count
-        self.m_drain_time   = _rhs.m_drain_time
-        self.m_prop_mode    = _rhs.self.m_prop_mode
+        self.m_source_count = dict(_rhs.m_source_count)
+        self.m_total_count  = dict(_rhs.m_total_count)
+        self.m_drain_time   = dict(_rhs.m_drain_time)
+        self.m_prop_mode    = _rhs.m_prop_mode
 
 
 # Have a pool of context objects to use
-- 
2.43.0


From c125d1892aab2cfb3aa881bcb944a2db393ee740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 066/172] fix: displaying objections showed at most one object

---
 src/uvm/base/uvm_objection.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 601f987..69e8f42 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -39,7 +39,6 @@ from .sv import sv
 from ..macros import (uvm_info, uvm_do_callbacks,
     uvm_do_callbacks_async)
 from typing import List, Dict, Any
-from .uvm_pool import UVMPool
 from .uvm_callback import UVMCallback
 
 UVM_USE_PROCESS_CONTAINER = 1
@@ -1055,7 +1054,7 @@ class UVMObjection(UVMReportObject):
         blank = "                                                                                   "
         s = ""
         total = 0
-        lst = UVMPool()
+        lst = {}
         curr_obj = None
         depth = 0
         name = ""
@@ -1082,9 +1081,11 @@ class UVMObjection(UVMReportObject):
         s = s + "---------------------------------------------------------\n"
 
         this_obj_name = obj.get_full_name()
-        curr_obj_name = this_obj_name
 
-        while True:
+        for curr_obj_name in sorted(lst):
+            if (this_obj_name != "" and curr_obj_name != this_obj_name and
+                    not curr_obj_name.startswith(this_obj_name + ".")):
+                continue
             curr_obj = lst[curr_obj_name]
 
             # determine depth, count dots "." in the name
@@ -1108,11 +1109,6 @@ class UVMObjection(UVMReportObject):
             s += sv.sformatf("%d       %d       %s'%s'\n", src_count, total_count,
                     blank[0:2*depth], name)
 
-            if not ((lst.has_next() and
-                    curr_obj_name[0:len(this_obj_name)] == this_obj_name)):
-                break
-            curr_obj_name = lst.next()
-
         s = s + "---------------------------------------------------------\n"
 
         return s
-- 
2.43.0


From 914f00c77c15735ccadfe76bbdc973802703a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 067/172] fix: waiting for an objection event returned at once
 if it had happened earlier

---
 src/uvm/base/uvm_objection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 69e8f42..763c37c 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -748,6 +748,7 @@ class UVMObjection(UVMReportObject):
         self.m_cleared = 1
         if self.m_top in self.m_events:
             self.m_events[self.m_top].all_dropped.set()
+            self.m_events[self.m_top].all_dropped.clear()
 
     #  // m_execute_scheduled_forks
     #  // -------------------------
@@ -907,6 +908,7 @@ class UVMObjection(UVMReportObject):
         uvm_do_callbacks(self, UVMObjectionCallback, 'raised', self,obj,source_obj,description,count)
         if obj in self.m_events:
             self.m_events[obj].raised.set()
+            self.m_events[obj].raised.clear()
 
     #  // Function: dropped
     #  //
@@ -924,6 +926,7 @@ class UVMObjection(UVMReportObject):
         uvm_do_callbacks(self,UVMObjectionCallback,'dropped', self,obj,source_obj,description,count)
         if obj in self.m_events:
             self.m_events[obj].dropped.set()
+            self.m_events[obj].dropped.clear()
 
 
     async def all_dropped(self, obj, source_obj, description, count):
@@ -945,6 +948,7 @@ class UVMObjection(UVMReportObject):
         await uvm_do_callbacks_async(self, UVMObjectionCallback, 'all_dropped', self,obj, source_obj, description, count)
         if obj in self.m_events:
             self.m_events[obj].all_dropped.set()
+            self.m_events[obj].all_dropped.clear()
         if obj == self.m_top:
             self.m_top_all_dropped = 1
 
-- 
2.43.0


From 2aae9b4725846e28f010c711ce2f383663e54b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 068/172] fix: every drained objection left an unused objection
 behind

---
 src/uvm/base/uvm_objection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 763c37c..ac1a665 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1175,7 +1175,7 @@ class UVMObjectionContextObject:
         self.description = ""
         self.count = 0
         #self.objection: Optional[UVMObjection] = None
-        self.objection = UVMObjection()
+        self.objection = None
 
     def clear(self):
         """
@@ -1186,4 +1186,4 @@ class UVMObjectionContextObject:
         self.source_obj = None
         self.description = ""
         self.count = 0
-        self.objection = UVMObjection()
+        self.objection = None
-- 
2.43.0


From f02ed463158225506be5cb1454f1fd205f51ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 069/172] fix: runtime phases could be added to one schedule
 only

---
 src/uvm/base/uvm_runtime_phases.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_runtime_phases.py b/src/uvm/base/uvm_runtime_phases.py
index 332dbc0..0c9f332 100644
--- a/src/uvm/base/uvm_runtime_phases.py
+++ b/src/uvm/base/uvm_runtime_phases.py
@@ -92,7 +92,7 @@ class UVMPreResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPreResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_reset"):
         super().__init__(name)
@@ -144,7 +144,7 @@ class UVMResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="reset"):
         super().__init__(name)
@@ -189,7 +189,7 @@ class UVMPostResetPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_reset"):
         super().__init__(name)
@@ -236,7 +236,7 @@ class UVMPreConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_configure"):
         super().__init__(name)
@@ -282,7 +282,7 @@ class UVMConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="configure"):
         super().__init__(name)
@@ -329,7 +329,7 @@ class UVMPostConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_configure"):
         super().__init__(name)
@@ -373,7 +373,7 @@ class UVMPreMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_main"):
         super().__init__(name)
@@ -465,7 +465,7 @@ class UVMPostMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_main"):
         super().__init__(name)
@@ -508,7 +508,7 @@ class UVMPreShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_shutdown"):
         super().__init__(name)
@@ -554,7 +554,7 @@ class UVMShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="shutdown"):
         super().__init__(name)
@@ -601,7 +601,7 @@ class UVMPostShutdownPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPostShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_shutdown"):
         super().__init__(name)
-- 
2.43.0


From d7f726ffb9b5caebe4a55e73bcff7397462edacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 070/172] fix: phases added with another shared its neighbours
 from then on

---
 src/uvm/base/uvm_phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index a9440af..72c2a2d 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -523,8 +523,8 @@ class UVMPhase(UVMObject):
 
         # INSERT IN PARALLEL WITH 'WITH' PHASE
         if with_phase is not None:
-            begin_node.m_predecessors = with_phase.m_predecessors
-            end_node.m_successors = with_phase.m_successors
+            begin_node.m_predecessors = dict(with_phase.m_predecessors)
+            end_node.m_successors = dict(with_phase.m_successors)
             for pred in with_phase.m_predecessors:
                 pred.m_successors[begin_node] = 1
             for succ in with_phase.m_successors:
-- 
2.43.0


From cad6d683cde51d1cdae2fd71c53de19620d1e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 071/172] fix: inserting a phase between two adjacent ones
 failed

---
 src/uvm/base/uvm_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 72c2a2d..d0772fe 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -559,7 +559,7 @@ class UVMPhase(UVMObject):
             before_phase.m_predecessors[end_node] = 1
             if before_phase in after_phase.m_successors:
                 del after_phase.m_successors[before_phase]
-                del before_phase.m_successors[after_phase]
+                del before_phase.m_predecessors[after_phase]
 
         # Transition nodes to DORMANT state
         if new_node is None:
-- 
2.43.0


From 9026d98f523503426fe6c0292c481484ea435a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 072/172] fix: a phase skipped components once a phase method
 had iterated over the children

---
 src/uvm/base/uvm_bottomup_phase.py | 7 ++-----
 src/uvm/base/uvm_topdown_phase.py  | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_bottomup_phase.py b/src/uvm/base/uvm_bottomup_phase.py
index 637bb38..f2fb0d2 100644
--- a/src/uvm/base/uvm_bottomup_phase.py
+++ b/src/uvm/base/uvm_bottomup_phase.py
@@ -67,11 +67,8 @@ class UVMBottomupPhase(UVMPhase):
         phase_domain = phase.get_domain()
         comp_domain = comp.get_domain()
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
         if UVMPhase.m_phase_trace:
             dom_name = "unknown"
diff --git a/src/uvm/base/uvm_topdown_phase.py b/src/uvm/base/uvm_topdown_phase.py
index 0b0e032..73cda5c 100644
--- a/src/uvm/base/uvm_topdown_phase.py
+++ b/src/uvm/base/uvm_topdown_phase.py
@@ -102,11 +102,8 @@ class UVMTopdownPhase(UVMPhase):
             else:
                 uvm_report_fatal("PH_BADEXEC","topdown phase traverse internal error")
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
     def execute(self, comp, phase):
         """
-- 
2.43.0


From 50612bf257e68ae720358d1ffc7aa55870894316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 073/172] fix: dropping an objection of the reset phase failed
 without an object

---
 src/uvm/base/uvm_phase.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index d0772fe..bebdc05 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -798,12 +798,7 @@ class UVMPhase(UVMObject):
     #  // The drop is expected to be matched with an earlier raise.
     #  //
     def drop_objection(self, obj, description="", count=1):
-        if self.get_name() == 'reset':
-            print("EEE object dropping reset obj now " + obj.get_name())
         if self.phase_done is not None:
-            if self.get_name() == 'reset':
-                print("Dropping reset objection\n" +
-                        self.phase_done.convert2string())
             self.phase_done.drop_objection(obj,description,count)
         else:
             self.m_report_null_objection(obj, description, count, "drop")
-- 
2.43.0


From 1545ba48181a77a7974cc879671e23423bb6c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 074/172] fix: only the first branch of a schedule was searched
 for a phase

---
 src/uvm/base/uvm_phase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index bebdc05..1936b92 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1016,7 +1016,8 @@ class UVMPhase(UVMObject):
                     (pred.get_schedule() == orig.get_schedule()) or
                     (pred.get_domain() == orig.get_domain())):
                 found = pred.m_find_predecessor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         uvm_debug(self, 'm_find_pred', "Did not find precessors for " +
                 str(phase))
         return None
@@ -1045,7 +1046,8 @@ class UVMPhase(UVMObject):
                     (succ.get_schedule() == orig.get_schedule()) or
                     (succ.get_domain() == orig.get_domain())):
                 found = succ.m_find_successor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         return None
 
 
-- 
2.43.0


From 8cb9c2133c3192fa7a7598f10a11d77feb2e405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 075/172] fix: the last phase of a schedule could only be the
 final phase

---
 src/uvm/base/uvm_phase.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 1936b92..0f41e55 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1143,8 +1143,7 @@ class UVMPhase(UVMObject):
                     done = False
 
         # remove ourselves from the list
-        if self.get_name() != 'final':
-            del pred_of_succ[self]
+        pred_of_succ.pop(self, None)
 
 
     async def m_wait_for_pred(self):
-- 
2.43.0


From 7b86d11132ad393f54f98040c46335a70408f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 076/172] fix: waiting for a phase state missed the current
 state or another waiter's change

---
 src/uvm/base/uvm_phase.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 0f41e55..ceb1056 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -303,6 +303,7 @@ class UVMPhase(UVMObject):
                 ph2str(self.m_state) + ' => ' + ph2str(state)))
         self.m_state = state
         self.m_phase_set_state_event.set()
+        self.m_phase_set_state_event.clear()
         if self.m_state == UVM_PHASE_DONE:
             self.m_phase_done_event.set()
         if self.m_state >= UVM_PHASE_SYNCING:
@@ -914,11 +915,8 @@ class UVMPhase(UVMObject):
 
 
     async def _wait_state_change_func(self, func):
-        while True:
+        while not func():
             await self.m_phase_set_state_event.wait()
-            self.m_phase_set_state_event.clear()
-            if func():
-                break
 
     #
     #
-- 
2.43.0


From 9aed2e14e5a72233a8378d79c9249b94dcfa09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 077/172] fix: +UVM_PHASE_TRACE failed

---
 src/uvm/base/uvm_phase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index ceb1056..8c710b3 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -508,9 +508,9 @@ class UVMPhase(UVMObject):
 
         if UVMPhase.m_phase_trace:
             typ = phase.get_phase_type()
-            uvm_report_info("PH/TRC/ADD_PH", (self.get_name() + " (" + self.m_phase_type.name()
+            uvm_report_info("PH/TRC/ADD_PH", (self.get_name() + " (" + str(self.m_phase_type)
                 + ") ADD_PHASE: phase=" + phase.get_full_name() + " ("
-                + typ.name() + ", inst_id=" + "{}".format(phase.get_inst_id())
+                + str(typ) + ", inst_id=" + "{}".format(phase.get_inst_id())
                 + ")"), UVM_DEBUG)
             #" with_phase=",   (with_phase == null)   ? "null" : with_phase.get_name(),
             #" after_phase=",  (after_phase == null)  ? "null" : after_phase.get_name(),
@@ -1155,7 +1155,7 @@ class UVMPhase(UVMObject):
 
             if UVMPhase.m_phase_trace:
                 s = sv.sformatf("Waiting for phase '%s' (%0d) to be READY_TO_END. Current state is %s",
-                    sibling.get_name(),sibling.get_inst_id(),sibling.m_state.name())
+                    sibling.get_name(),sibling.get_inst_id(),ph2str(sibling.m_state))
                 UVM_PH_TRACE("PH/TRC/WAIT_PRED_OF_SUCC",s,self,UVM_HIGH)
 
             await sibling.wait_for_state(UVM_PHASE_READY_TO_END, UVM_GTE)
-- 
2.43.0


From fe9557792acddc7bb943f17860e5f6f0595dea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 078/172] fix: component tasks were not killed when their phase
 ended

---
 src/uvm/base/uvm_phase.py      | 9 ++++++++-
 src/uvm/base/uvm_task_phase.py | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 8c710b3..b367df6 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -239,6 +239,8 @@ class UVMPhase(UVMObject):
         self.phase_done = None  # uvm_objection
 
         self.m_phase_proc = None  # TODO process
+        # Processes of the components executing this phase
+        self.m_phase_comp_procs = []
         self.m_num_procs_not_yet_returned = 0
 
         self.m_is_task_phase = False
@@ -1348,7 +1350,9 @@ class UVMPhase(UVMObject):
                 # EXECUTING: (task phases)
                 #-----------
                 uvm_debug(self, 'execute_phase', "Forking now task_phase for uvm_top")
-                task_proc = cocotb.start_soon(task_phase.traverse(top, self, UVM_PHASE_EXECUTING))
+                self.m_phase_comp_procs = []
+                self.m_phase_proc = cocotb.start_soon(
+                    task_phase.traverse(top, self, UVM_PHASE_EXECUTING))
                 #wait(0); // stay alive for later kill
                 #join_none
 
@@ -1438,6 +1442,9 @@ class UVMPhase(UVMObject):
             if self.m_phase_proc is not None:
                 self.m_phase_proc.kill()
                 self.m_phase_proc = None
+                for proc in self.m_phase_comp_procs:
+                    proc.kill()
+                self.m_phase_comp_procs = []
             await uvm_zero_delay()
             #0; // LET ANY WAITERS WAKE UP
             uvm_debug(self, "execute_phase", "Cleanup DONE |" + self.m_imp.get_name() + "|")
diff --git a/src/uvm/base/uvm_task_phase.py b/src/uvm/base/uvm_task_phase.py
index aa18b20..fc21313 100644
--- a/src/uvm/base/uvm_task_phase.py
+++ b/src/uvm/base/uvm_task_phase.py
@@ -192,6 +192,7 @@ class UVMTaskPhase(UVMPhase):
         #proc.srandom(uvm_create_random_seed(phase.get_type_name(), comp.get_full_name()))
         #phase.m_num_procs_not_yet_returned += 1
         proc = cocotb.start_soon(self._execute_fork_join_none(comp,phase))
+        phase.m_phase_comp_procs.append(proc)
         #phase.m_num_procs_not_yet_returned -= 1
         await uvm_zero_delay()
         #join_none
-- 
2.43.0


From 2e025152775b0deb91bdcd77faf35d21753254b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 079/172] fix: the final phase ran bottom-up instead of
 top-down

---
 src/uvm/base/uvm_common_phases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_common_phases.py b/src/uvm/base/uvm_common_phases.py
index 2ae900a..7501144 100644
--- a/src/uvm/base/uvm_common_phases.py
+++ b/src/uvm/base/uvm_common_phases.py
@@ -459,7 +459,7 @@ class UVMReportPhase(UVMBottomupPhase):
         return UVMReportPhase.type_name
 
 
-class UVMFinalPhase(UVMBottomupPhase):
+class UVMFinalPhase(UVMTopdownPhase):
     """
     Tie up loose ends.
 
@@ -495,7 +495,7 @@ class UVMFinalPhase(UVMBottomupPhase):
         return UVMFinalPhase.m_inst
 
     def __init__(self, name="final"):
-        UVMBottomupPhase.__init__(self, name)
+        UVMTopdownPhase.__init__(self, name)
 
     def get_type_name(self):
         return UVMFinalPhase.type_name
-- 
2.43.0


From 6428c4bd963a7e79ca9db20339173259b3cf0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 080/172] fix: parallel function phases waited for each other
 forever

---
 src/uvm/base/uvm_phase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index b367df6..fbcb8f1 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1154,6 +1154,9 @@ class UVMPhase(UVMObject):
         # wait for predecessors to successors (real phase nodes, not terminals)
         # mostly debug msgs
         for sibling in pred_of_succ:
+            # function phases are never READY_TO_END, they end by themselves
+            if not sibling.m_imp.is_task_phase():
+                continue
 
             if UVMPhase.m_phase_trace:
                 s = sv.sformatf("Waiting for phase '%s' (%0d) to be READY_TO_END. Current state is %s",
-- 
2.43.0


From 19467c27dc2dbb1097f0221cf93bc8f780636326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 081/172] fix: type-wide callbacks were lost for objects with
 callbacks of their own

---
 src/uvm/base/uvm_callback.py | 58 +++++++++++++-----------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index e8d6fb4..c989e2f 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -112,9 +112,9 @@ class UVMCallbacksBase(UVMObject):
 
     @classmethod
     def m_initialize(cls):
-        if cls.m_b_inst is None:
-            cls.m_b_inst = UVMCallbacksBase("callbacks_base")
-            cls.m_pool = UVMPool()
+        if UVMCallbacksBase.m_b_inst is None:
+            UVMCallbacksBase.m_b_inst = UVMCallbacksBase("callbacks_base")
+            UVMCallbacksBase.m_pool = UVMPool()
         return UVMCallbacksBase.m_b_inst
 
     def m_am_i_a(self, obj):
@@ -238,7 +238,6 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
         if UVMTypedCallbacks.m_t_inst is None:
             super().m_initialize()
             UVMTypedCallbacks.m_t_inst = UVMTypedCallbacks("typed_callbacks")
-            UVMTypedCallbacks.m_t_inst.m_tw_cb_q = []
         return UVMTypedCallbacks.m_t_inst
 
 
@@ -333,29 +332,23 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
             else:
                 cls.m_t_inst.m_tw_cb_q.insert(0, cb)
 
-        if cls.m_t_inst.m_pool.has_first():
-            obj = cls.m_t_inst.m_pool.get_first()
-            while True:
-                #if($cast(me,obj)):
-                me = obj
-                q = cls.m_t_inst.m_pool.get(obj)
-                if q is None:
-                    q = []
-                    cls.m_t_inst.m_pool.add(obj,q)
-
-                if self.m_cb_find(q,cb) == -1:
-                    if not warned:
-                        cls.m_cb_find_name(q, cb.get_name(), "object instance "
-                                + me.get_full_name())
-
-                    if ordering == UVM_APPEND:
-                        q.append(cb)
-                    else:
-                        q.insert(0, cb)
-
-                if cls.m_t_inst.m_pool.has_next() is False:
-                    break
-                #end while(m_t_inst.m_pool.next(obj))
+        for obj in cls.m_t_inst.m_pool.key_list():
+            #if($cast(me,obj)):
+            me = obj
+            q = cls.m_t_inst.m_pool.get(obj)
+            if q is None:
+                q = []
+                cls.m_t_inst.m_pool.add(obj,q)
+
+            if self.m_cb_find(q,cb) == -1:
+                if not warned:
+                    cls.m_cb_find_name(q, cb.get_name(), "object instance "
+                            + me.get_full_name())
+
+                if ordering == UVM_APPEND:
+                    q.append(cb)
+                else:
+                    q.insert(0, cb)
 
         for i in range(len(self.m_derived_types)):
             cb_pair = UVMTypeIDBase.typeid_map[self.m_derived_types[i]]
@@ -752,17 +745,6 @@ class UVMCallbacks(UVMTypedCallbacks):
                 cls.m_base_inst.m_pool.add(obj,q)
 
             if len(q) == 0:
-                # Need to make sure that registered report catchers are added. This
-                # way users don't need to set up uvm_report_object as a super type.
-                o = []  # uvm_report_object
-
-                if (sv.cast(o,obj, UVMReportObject)):
-                    # uvm_queue#(uvm_callback) qr
-                    UVMCallbacks.get()
-                    qr = UVMCallbacks.m_t_inst.m_tw_cb_q
-                    for i in range(len(qr)):
-                        q.append(qr[i])
-
                 # for(int i=0; i<m_t_inst.m_tw_cb_q.size(); ++i)
                 for i in range(len(cls.m_t_inst.m_tw_cb_q)):
                     q.append(cls.m_t_inst.m_tw_cb_q[i])
-- 
2.43.0


From c719aa55edaf8bbe1cc3eaf1e70476fd38193bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 082/172] fix: uvm_do_callbacks_exit_on did not return the
 value

---
 src/uvm/macros/uvm_callback_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_callback_defines.py b/src/uvm/macros/uvm_callback_defines.py
index 17f59f9..6df5f3b 100644
--- a/src/uvm/macros/uvm_callback_defines.py
+++ b/src/uvm/macros/uvm_callback_defines.py
@@ -254,7 +254,7 @@ async def uvm_do_obj_callbacks_async(OBJ, CB, METHOD, *args):
 #`define uvm_do_callbacks_exit_on(T,CB,METHOD,VAL) \
 #  `uvm_do_obj_callbacks_exit_on(T,CB,this,METHOD,VAL) \
 def uvm_do_callbacks_exit_on(self,CB,METHOD,VAL, *args):
-    uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
+    return uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
 
 
 #//-----------------------------------------------------------------------------
-- 
2.43.0


From f050c1286bdc4cae90b7861c1cf01ec1f824f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 083/172] fix: waiters of a UVMEvent saw triggers of the past
 and missed short on/off periods

---
 src/uvm/base/uvm_event.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 0255789..9441efe 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -24,7 +24,7 @@
 
 from cocotb.triggers import Event
 
-from .sv import sv, wait
+from .sv import sv
 from .uvm_object import UVMObject
 from ..macros.uvm_message_defines import uvm_warning
 from .uvm_globals import uvm_zero_delay
@@ -50,6 +50,7 @@ class UVMEventBase(UVMObject):
         """
         super().__init__(name)
         self.m_event = Event()
+        self.m_triggered_at = None  # Time of the last trigger of m_event
         self.num_waiters = 0
         self.on = False
         self.on_event = Event("on_event_" + name)
@@ -67,8 +68,14 @@ class UVMEventBase(UVMObject):
             key (str): Member variable name
             value (any): Value to set for that member variable.
         """
+        changed = getattr(self, key, None) != value
         setattr(self, key, value)
-        self.m_value_changed_event.set()
+        if changed:
+            # Each change has an own event, so that it wakes up exactly the
+            # processes which were waiting when it happened
+            event = self.m_value_changed_event
+            self.m_value_changed_event = Event("value_changed_event_" + self.get_name())
+            event.set()
 
     def set(self):
         if self.m_waiters > 0:
@@ -108,7 +115,7 @@ class UVMEventBase(UVMObject):
             await uvm_zero_delay()  # TODO tpoikela: redundant, should be removed?
             return
         self.num_waiters += 1
-        await wait(lambda: self.on is True, self.m_value_changed_event)
+        await self.m_value_changed_event.wait()
 
 
     async def wait_off(self, delta=False):
@@ -129,7 +136,7 @@ class UVMEventBase(UVMObject):
                 await uvm_zero_delay()
             return
         self.num_waiters += 1
-        await wait(lambda: self.on is False, self.m_value_changed_event)
+        await self.m_value_changed_event.wait()
 
 
     async def wait_trigger(self):
@@ -145,7 +152,6 @@ class UVMEventBase(UVMObject):
         """
         self.num_waiters += 1
         await self.m_event.wait()
-        self.m_event.clear()
 
 
     async def wait_ptrigger(self):
@@ -155,11 +161,10 @@ class UVMEventBase(UVMObject):
         certain race conditions. If this method is called after the trigger but
         within the same time-slice, the caller returns immediately.
         """
-        if self.m_event.fired:
+        if self.m_triggered_at is not None and self.m_triggered_at == sv.realtime():
             return
         self.num_waiters += 1
         await self.m_event.wait()
-        self.m_event.clear()
 
     def get_trigger_time(self):
         """
@@ -205,6 +210,7 @@ class UVMEventBase(UVMObject):
         if wakeup:
             self.m_event.set()
         self.m_event = Event()
+        self.m_triggered_at = None
         self.num_waiters = 0
         self.set_value("on", False)
         self.trigger_time = 0
@@ -333,7 +339,11 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
                 tmp = self.callbacks.get(i)
             skip = skip + tmp.pre_trigger(self, data)
         if skip is False:
-            self.m_event.set(data)
+            # The next trigger has an own event: this one stays set
+            event = self.m_event
+            self.m_event = Event()
+            self.m_triggered_at = sv.realtime()
+            event.set(data)
             if self.callbacks.size() > 0:
                 for i in range(0, self.callbacks.size()):
                     #uvm_event_callback#(T) tmp=self.callbacks[i]
-- 
2.43.0


From 55312aae36c1cf914a631f71e1c92c06ae41cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 084/172] fix: only the last pre_trigger was called, and no
 trigger got past it

---
 src/uvm/base/uvm_event.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 9441efe..bfbb5d7 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -337,7 +337,8 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
             for i in range(0, self.callbacks.size()):
                 #uvm_event_callback#(T) tmp=self.callbacks[i]
                 tmp = self.callbacks.get(i)
-            skip = skip + tmp.pre_trigger(self, data)
+                if tmp.pre_trigger(self, data):
+                    skip = True
         if skip is False:
             # The next trigger has an own event: this one stays set
             event = self.m_event
-- 
2.43.0


From fe4564f1a0bb91f918eec6495413a5578b4cbf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 085/172] fix: UVMEvent.add_callback could not put the first
 callback in front

---
 src/uvm/base/uvm_event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index bfbb5d7..e5641e5 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -387,7 +387,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
         if append is True:
             self.callbacks.push_back(cb)
         else:
-            self.callbacks.insert(0, cb)
+            self.callbacks.push_front(cb)
 
 
     def delete_callback(self, cb):
-- 
2.43.0


From 462a09555fc6caaf1d20069bbdf8acbe09f960c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 086/172] fix: the barrier name was a set, and its release was
 never started

---
 src/uvm/base/uvm_barrier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index 370ac93..9bf3c42 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -46,7 +46,7 @@ class UVMBarrier(UVMObject):
     #
     def __init__(self, name="", threshold=0):
         super().__init__(name)
-        self.m_event = UVMEvent({"barrier_",name})
+        self.m_event = UVMEvent("barrier_" + name)
         self.threshold = threshold
         self.num_waiters = 0
         self.auto_reset = 1
@@ -68,7 +68,7 @@ class UVMBarrier(UVMObject):
         if self.num_waiters >= self.threshold:
             if not self.auto_reset:
                 self.at_threshold=1
-            self.m_trigger()
+            await self.m_trigger()
             return
 
         await self.m_event.wait_trigger()
-- 
2.43.0


From a55c6a4f2eaac861a7cc2b68dacb6bfbed0d2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 087/172] fix: mailbox peek could return None, and num() a bool

---
 src/uvm/base/uvm_mailbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index f82140e..5a9f616 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -85,7 +85,7 @@ class UVMMailbox():
 
     async def peek(self, itemq: OutputItem=None) -> Any:
         """ Peeks (with blocking) next item from mailbox without removing it """
-        if not self.can_get():
+        while not self.can_get():
             _uvm_debug(self, 'get', 'waiting write event to get item')
             self.m_write_event.clear()
             await self.m_write_event.wait()
@@ -152,4 +152,4 @@ class UVMMailbox():
         return self.m_queue.size() < self.max_size
 
     def num(self) -> int:
-        return self.m_queue.size() > 0
+        return self.m_queue.size()
-- 
2.43.0


From c7987c4b741ad36f2a6e6d399524e255b2145233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 088/172] fix: FIFO peek gave the item twice, try_get published
 the wrong one

---
 src/uvm/tlm1/uvm_tlm_fifos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 32a3093..0e6c549 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -122,7 +122,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
         return res
 
     async def peek(self, t=None) -> Any:
-        res = await self.m.peek(t)
+        res = await self.m.peek()
         if t is not None:
             t.append(res)
         return res
@@ -130,7 +130,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
     def try_get(self, t) -> bool:
         if not self.m.try_get(t):
             return False
-        self.get_ap.write(t[0])
+        self.get_ap.write(t[-1])
         return True
 
     def try_peek(self, t) -> bool:
-- 
2.43.0


From 1cc5672704601cc83db1473be0e6e2db6665281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 089/172] fix: semaphore blocked with keys available and let
 too many processes through

---
 src/uvm/base/sv.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 0e2ca62..6d2104c 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -33,7 +33,7 @@ from typing import List, Any
 import cocotb
 
 from cocotb_coverage import crv
-from cocotb.triggers import Lock, Timer, Combine, First
+from cocotb.triggers import Event, Timer, Combine, First
 from cocotb.utils import get_sim_time, simulator
 from cocotb_bus.bus import Bus
 
@@ -517,28 +517,27 @@ class semaphore():
     def __init__(self, count=1):
         self.max_count = count
         self.count = count
-        self.lock = Lock("sem_lock")
-        self.locked = False
+        self.waiters = []  # Blocked processes in order of arrival: [count, Event]
 
 
     async def get(self, count=1):
-        if self.count > count:
-            self.count -= count
-            await Timer(0, "NS")
-        elif count > self.max_count:
+        if count > self.max_count:
             raise Exception("Tried to get {} > max count {}".format(count,
                 self.max_count))
-        else:
-            await self.lock.acquire()
-            self.locked = True
+        elif self.count >= count and len(self.waiters) == 0:
             self.count -= count
+        else:
+            event = Event("sem_get")
+            self.waiters.append([count, event])
+            await event.wait()  # put() takes the keys
 
     def put(self, count=1):
         if self.count < self.max_count:
             self.count += count
-            if self.locked is True:
-                self.locked = False
-                self.lock.release()
+            while self.waiters and self.waiters[0][0] <= self.count:
+                waiting_for, event = self.waiters.pop(0)
+                self.count -= waiting_for
+                event.set()
 
     def try_get(self, count=1):
         if self.count >= count:
-- 
2.43.0


From 02f51bef449410468a585988ce22a33f9a735ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 090/172] fix: recording messages failed

---
 src/uvm/base/uvm_report_server.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index e0fc451..4584c4b 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -422,13 +422,11 @@ class UVMReportServer(UVMObject):
 
         # UVM_RM_RECORD action
         if report_message.get_action() & UVM_RM_RECORD:
-            stream = None  # uvm_tr_stream stream
             ro = report_message.get_report_object()
             rh = report_message.get_report_handler()
 
-            # Check for pre-existing stream TODO
-            #if (m_streams.exists(ro.get_name()) && (m_streams[ro.get_name()].exists(rh.get_name())))
-            #stream = m_streams[ro.get_name()][rh.get_name()]
+            # Check for pre-existing stream
+            stream = self.m_streams.get(ro.get_name(), {}).get(rh.get_name())
 
             # If no pre-existing stream (or for some reason pre-existing stream was ~null~)
             if stream is None:
@@ -444,7 +442,7 @@ class UVMReportServer(UVMObject):
                     # Open the stream.    Name=report object name, scope=report handler name, type=MESSAGES
                     stream = db.open_stream(ro.get_name(), rh.get_name(), "MESSAGES")
                     # Save off the openned stream
-                    self.m_streams[ro.get_name()][rh.get_name()] = stream
+                    self.m_streams.setdefault(ro.get_name(), {})[rh.get_name()] = stream
             if stream is not None:
                 recorder = stream.open_recorder(report_message.get_name(), None,report_message.get_type_name())
                 if recorder is not None:
-- 
2.43.0


From 7f2446731fd340e4e5c12ac1955296835535b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 091/172] fix: a blocking-put port could be connected to a
 transport implementation

---
 src/uvm/macros/uvm_tlm_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_tlm_defines.py b/src/uvm/macros/uvm_tlm_defines.py
index 8a3c122..ed7b628 100644
--- a/src/uvm/macros/uvm_tlm_defines.py
+++ b/src/uvm/macros/uvm_tlm_defines.py
@@ -628,7 +628,7 @@ def UVM_SEQ_ITEM_PULL_IMP(T, imp):
 UVM_TLM_BLOCKING_PUT_MASK = (1 << 0)
 UVM_TLM_BLOCKING_GET_MASK = (1 << 1)
 UVM_TLM_BLOCKING_PEEK_MASK = (1 << 2)
-UVM_TLM_BLOCKING_TRANSPORT_MASK = (2 << 3)
+UVM_TLM_BLOCKING_TRANSPORT_MASK = (1 << 3)
 #
 UVM_TLM_NONBLOCKING_PUT_MASK = (1 << 4)
 UVM_TLM_NONBLOCKING_GET_MASK = (1 << 5)
-- 
2.43.0


From 114c33dc1efa3258d9e13f623bbfd18d7635f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 092/172] fix: report macros checked the settings of the root
 instead of those of their component

---
 src/uvm/macros/uvm_message_defines.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/uvm/macros/uvm_message_defines.py b/src/uvm/macros/uvm_message_defines.py
index 6ea63b5..40f57f9 100644
--- a/src/uvm/macros/uvm_message_defines.py
+++ b/src/uvm/macros/uvm_message_defines.py
@@ -51,6 +51,17 @@ def uvm_line():
     return "<TODO uvm_line>"
 
 
+def _report_enabled(caller_frame, verbosity, severity, ID):
+    """
+    Checks the settings of the object a report is issued by, as its
+    uvm_report_* method would, or those of UVMRoot if it has none.
+    """
+    enabled = getattr(caller_frame.f_locals.get('self'), 'uvm_report_enabled', None)
+    if enabled is None:
+        enabled = uvm_report_enabled
+    return enabled(verbosity, severity, ID)
+
+
 if UVM_REPORT_DISABLE_LINE:
     def uvm_line():
         return 0
@@ -113,7 +124,7 @@ if UVM_REPORT_DISABLE_LINE:
 #// |`uvm_info(ID, MSG, VERBOSITY)
 
 def uvm_info(ID, MSG, VERBOSITY):
-    if uvm_report_enabled(VERBOSITY, UVM_INFO, ID):
+    if _report_enabled(inspect.currentframe().f_back, VERBOSITY, UVM_INFO, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
@@ -139,7 +150,7 @@ def uvm_info(ID, MSG, VERBOSITY):
 #// |`uvm_warning(ID, MSG)
 
 def uvm_warning(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_WARNING,ID):
+    if _report_enabled(inspect.currentframe().f_back, UVM_NONE, UVM_WARNING, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
@@ -164,7 +175,7 @@ def uvm_warning(ID, MSG):
 #// |`uvm_error(ID, MSG)
 
 def uvm_error(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_ERROR,ID):
+    if _report_enabled(inspect.currentframe().f_back, UVM_NONE, UVM_ERROR, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
@@ -190,7 +201,7 @@ def uvm_error(ID, MSG):
 
 
 def uvm_fatal(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_FATAL,ID):
+    if _report_enabled(inspect.currentframe().f_back, UVM_NONE, UVM_FATAL, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-- 
2.43.0


From fe71e247e4a83d45fbc6a8763a5f6c09709f4ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 093/172] fix: showing the verbosity of messages failed

---
 src/uvm/base/uvm_report_server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index 4584c4b..e99d789 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -2,8 +2,8 @@
 # from cocotb.utils import get_sim_time
 
 from .uvm_object import UVMObject
-from .uvm_object_globals import (UVM_BIN, UVM_COUNT, UVM_DEC, UVM_DISPLAY, UVM_ERROR, UVM_EXIT,
-                                 UVM_FATAL, UVM_INFO, UVM_LOG, UVM_LOW, UVM_MEDIUM, UVM_NONE,
+from .uvm_object_globals import (UVM_BIN, UVM_COUNT, UVM_DEBUG, UVM_DEC, UVM_DISPLAY, UVM_ERROR,
+                                 UVM_EXIT, UVM_FATAL, UVM_FULL, UVM_HIGH, UVM_INFO, UVM_LOG, UVM_LOW, UVM_MEDIUM, UVM_NONE,
                                  UVM_NO_ACTION, UVM_RM_RECORD, UVM_SEVERITY_LEVELS, UVM_STOP,
                                  UVM_WARNING)
 from .uvm_globals import uvm_report_info, uvm_sim_time
@@ -16,6 +16,10 @@ from typing import List, Any, Callable
 
 
 
+VERBOSITY_NAMES = {UVM_NONE: "UVM_NONE", UVM_LOW: "UVM_LOW", UVM_MEDIUM: "UVM_MEDIUM",
+                   UVM_HIGH: "UVM_HIGH", UVM_FULL: "UVM_FULL", UVM_DEBUG: "UVM_DEBUG"}
+
+
 def ename(sever) -> str:
     """
     Converts given severity level into string.
@@ -527,7 +531,7 @@ class UVMReportServer(UVMObject):
 
         if self.show_verbosity is True:
             verb = report_message.get_verbosity()
-            verbosity_str = "(" + verb + ")"
+            verbosity_str = "(" + VERBOSITY_NAMES.get(verb, str(verb)) + ")"
 
         if self.show_terminator is True:
             terminator_str = " -" + sev_string
-- 
2.43.0


From 9e43a1ab78eead4f635a75dbbd792c99fe356b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 094/172] fix: the ids and severities reported could not be
 listed

---
 src/uvm/base/uvm_report_server.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index e99d789..37f9387 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -348,12 +348,10 @@ class UVMReportServer(UVMObject):
         return self.m_message_db
 
     def get_severity_set(self, q: List[Any]) -> None:
-        while self.m_severity_count.has_next():
-            q.append(self.m_severity_count.next())
+        q.extend(self.m_severity_count.keys())
 
     def get_id_set(self, q: List[Any]) -> None:
-        while self.m_id_count.has_next():
-            q.append(self.m_id_count.next())
+        q.extend(self.m_id_count.keys())
 
     def f_display(self, file, _str) -> None:
         """
-- 
2.43.0


From 11d8b4cf70570aaaf1c3b004a45bd03390647242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 095/172] fix: an action set by a report catcher was replaced
 by that of the severity

---
 src/uvm/base/uvm_report_catcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index dae815e..f0121f6 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -290,7 +290,7 @@ class UVMReportCatcher(UVMCallback):
     #
     def set_action(self, action):
         self.m_modified_report_message.set_action(action)
-        self.m_set_action_called = 1
+        UVMReportCatcher.m_set_action_called = True
 
     #// Function: set_context
     #//
-- 
2.43.0


From 03bb3e7be5423beb0c6d93cf04ad2e5178132456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 096/172] fix: a report catcher that ended the simulation
 turned off all report catchers

---
 src/uvm/base/uvm_report_catcher.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index f0121f6..e818740 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -517,18 +517,24 @@ class UVMReportCatcher(UVMCallback):
     #//
     @classmethod
     def process_all_report_catchers(cls, rm):
-        _iter = UVMCallback("_iter")
-        catcher = None  # uvm_report_catcher
-        thrown = 1
-        orig_severity = 0  # uvm_severity
-        #cls.in_catcher = 0  # static bit in_catcher
-        l_report_object = rm.get_report_object()  # uvm_report_object
-
         if cls.in_catcher == 1:
             return 1
 
         cls.in_catcher = 1
         UVMCallbacksBase.m_tracing = 0  # turn off cb tracing so catcher stuff doesn't print
+        try:
+            return cls.m_process_all_report_catchers(rm)
+        finally:
+            cls.in_catcher = 0
+            UVMCallbacksBase.m_tracing = 1  # turn tracing stuff back on
+
+    @classmethod
+    def m_process_all_report_catchers(cls, rm):
+        _iter = UVMCallback("_iter")
+        catcher = None  # uvm_report_catcher
+        thrown = 1
+        orig_severity = 0  # uvm_severity
+        l_report_object = rm.get_report_object()  # uvm_report_object
 
         orig_severity = rm.get_severity()  # cast to 'uvm_severity' removed
         cls.m_modified_report_message = rm
@@ -590,8 +596,6 @@ class UVMReportCatcher(UVMCallback):
             if cls.m_modified_report_message.get_severity() < orig_severity:
                 cls.m_demoted_warning += 1
 
-        cls.in_catcher = 0
-        UVMCallbacksBase.m_tracing = 1  # turn tracing stuff back on
         return thrown
 
 
-- 
2.43.0


From 2c258a9b04b5915853917120c79d6a379a3f75b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 097/172] fix: finish_item returned only when the driver asked
 for the next item

---
 src/uvm/seq/uvm_sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index e4452d4..0829151 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -179,8 +179,8 @@ class UVMSequencer(UVMSequencerParamBase):
             self.uvm_report_fatal(self.get_full_name(), FATAL_MSG1)
         else:
             t = t[0]
-            self.m_wait_for_item_sequence_id = t.get_sequence_id()
             self.m_wait_for_item_transaction_id = t.get_transaction_id()
+            self.set_value('m_wait_for_item_sequence_id', t.get_sequence_id())
 
         if item is not None:
             self.seq_item_export.put_response(item)
-- 
2.43.0


From a7d4d1c038bced78b1d256e1c0f02f28daaae36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 098/172] fix: a sequence that was not relevant crashed the
 sequencer

---
 src/uvm/seq/uvm_sequencer_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 536f184..0fa0424 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1149,21 +1149,22 @@ class UVMSequencerBase(UVMComponent):
     async def _fork_first_proc(self, is_relevant_entries):
         started_forks = []
         #fork
-        forked_proc1 = cocotb.start_soon(self._fork_first_proc_sub_fork1(is_relevant_entries))
+        relevant_forks = []  # type: ignore
+        forked_proc1 = cocotb.start_soon(
+            self._fork_first_proc_sub_fork1(is_relevant_entries, relevant_forks))
         started_forks.append(forked_proc1)
         # The other path in the fork is for any queue entry to change
-        forked_proc2 = self.m_wait_arb_not_equal()
+        forked_proc2 = cocotb.start_soon(self.m_wait_arb_not_equal())
         started_forks.append(forked_proc2)
         ## await started_forks  # join_any
         await sv.fork_join_any(started_forks)
         # disable fork
-        for p in started_forks:
+        for p in started_forks + relevant_forks:
             p.kill()  # type: ignore
 
 
-    async def _fork_first_proc_sub_fork1(self, is_relevant_entries):
+    async def _fork_first_proc_sub_fork1(self, is_relevant_entries, fork_procs_join_none):
         # One path in fork is for any wait_for_relevant to return
-        fork_procs_join_none = []
         self.set_value('m_is_relevant_completed', False)
         for i in range(len(is_relevant_entries)):
             #fork
-- 
2.43.0


From b7a0de5dd52d9e8a054cc3549a70566e7f9f411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 099/172] fix: most arbitration modes of a sequencer ended in a
 fatal error

---
 src/uvm/seq/uvm_sequencer_base.py | 120 +++++++++++++++---------------
 1 file changed, 59 insertions(+), 61 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 0fa0424..be66544 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -35,7 +35,8 @@ from ..base.uvm_config_db import UVMConfigDb
 from ..macros.uvm_message_defines import (
     uvm_error, uvm_fatal, uvm_info, uvm_report_fatal, uvm_warning)
 from ..base.uvm_object_globals import (UVM_FINISHED, UVM_FULL, UVM_NONE,
-        UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM, UVM_LOW)
+        UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM, UVM_LOW, UVM_SEQ_ARB_WEIGHTED,
+        UVM_SEQ_ARB_STRICT_FIFO, UVM_SEQ_ARB_STRICT_RANDOM, UVM_SEQ_ARB_USER)
 from ..base.uvm_pool import UVMPool
 from ..base.uvm_queue import UVMQueue
 from ..base.uvm_globals import uvm_wait_for_nba_region, uvm_zero_delay
@@ -823,27 +824,19 @@ class UVMSequencerBase(UVMComponent):
             if (avail_sequences.size() == 1):
                 return cast(int, avail_sequences[0])
 
-        # TODO finish this function
-        #  //  Weighted Priority Distribution
-        #  // Pick an available sequence based on weighted priorities of available sequences
-        #  if (self.m_arbitration == UVM_SEQ_ARB_WEIGHTED):
-        #    sum_priority_val = 0
-        #    for (i = 0; i < avail_sequences.size(); i++):
-        #      sum_priority_val += m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]])
-        #    end
-        #
-        #    temp = $urandom_range(sum_priority_val-1, 0)
-        #
-        #    sum_priority_val = 0
-        #    for (i = 0; i < avail_sequences.size(); i++):
-        #      if ((m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]]) +
-        #           sum_priority_val) > temp):
-        #        return avail_sequences[i]
-        #      end
-        #      sum_priority_val += m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]])
-        #    end
-        #    uvm_report_fatal("Sequencer", "UVM Internal error in weighted arbitration code", UVM_NONE)
-        #  end
+        #  Weighted Priority Distribution
+        # Pick an available sequence based on weighted priorities of available sequences
+        if self.m_arbitration == UVM_SEQ_ARB_WEIGHTED:
+            for idx in avail_sequences:
+                sum_priority_val += self.m_get_seq_item_priority(self.arb_sequence_q[idx])
+            temp = sv.urandom_range(0, sum_priority_val - 1)
+
+            sum_priority_val = 0
+            for idx in avail_sequences:
+                sum_priority_val += self.m_get_seq_item_priority(self.arb_sequence_q[idx])
+                if sum_priority_val > temp:
+                    return cast(int, idx)
+            uvm_fatal("Sequencer", "UVM Internal error in weighted arbitration code")
 
 
         # Random Distribution
@@ -852,49 +845,54 @@ class UVMSequencerBase(UVMComponent):
             return cast(int, avail_sequences[i])
 
 
-        #  //  Strict Fifo
-        #  if ((self.m_arbitration == UVM_SEQ_ARB_STRICT_FIFO) || self.m_arbitration == UVM_SEQ_ARB_STRICT_RANDOM):
-        #    highest_pri = 0
-        #    // Build a list of sequences at the highest priority
-        #    for (i = 0; i < avail_sequences.size(); i++):
-        #      if (m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]]) > highest_pri):
-        #        // New highest priority, so start new list
-        #        highest_sequences.delete()
-        #        highest_sequences.push_back(avail_sequences[i])
-        #        highest_pri = m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]])
-        #      end
-        #      else if (m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]]) == highest_pri):
-        #        highest_sequences.push_back(avail_sequences[i])
-        #      end
-        #    end
-        #
-        #    // Now choose one based on arbitration type
-        #    if (self.m_arbitration == UVM_SEQ_ARB_STRICT_FIFO):
-        #      return(highest_sequences[0])
-        #    end
-        #
-        #    i = $urandom_range(highest_sequences.size()-1, 0)
-        #    return highest_sequences[i]
-        #  end
-        #
-        #  if (self.m_arbitration == UVM_SEQ_ARB_USER):
-        #    i = user_priority_arbitration( avail_sequences)
-        #
-        #    // Check that the returned sequence is in the list of available sequences.  Failure to
-        #    // use an available sequence will cause highly unpredictable results.
-        #    highest_sequences = avail_sequences.find with (item == i)
-        #    if (highest_sequences.size() == 0):
-        #      uvm_report_fatal("Sequencer",
-        #          $sformatf("Error in User arbitration, sequence %0d not available\n%s",
-        #                    i, convert2string()), UVM_NONE)
-        #    end
-        #    return(i)
-        #  end
-        #
+        #  Strict Fifo
+        if self.m_arbitration in [UVM_SEQ_ARB_STRICT_FIFO, UVM_SEQ_ARB_STRICT_RANDOM]:
+            # Build a list of sequences at the highest priority
+            highest_pri = 0
+            for idx in avail_sequences:
+                pri = self.m_get_seq_item_priority(self.arb_sequence_q[idx])
+                if pri > highest_pri:
+                    # New highest priority, so start new list
+                    highest_sequences.delete()
+                    highest_sequences.push_back(idx)
+                    highest_pri = pri
+                elif pri == highest_pri:
+                    highest_sequences.push_back(idx)
+
+            # Now choose one based on arbitration type
+            if self.m_arbitration == UVM_SEQ_ARB_STRICT_FIFO:
+                return cast(int, highest_sequences[0])
+            i = sv.urandom_range(0, highest_sequences.size()-1)
+            return cast(int, highest_sequences[i])
+
+        if self.m_arbitration == UVM_SEQ_ARB_USER:
+            i = self.user_priority_arbitration(avail_sequences)
+            # Check that the returned sequence is in the list of available sequences.
+            # Failure to use an available sequence will cause highly unpredictable results.
+            if i not in avail_sequences.queue:
+                uvm_fatal("Sequencer", sv.sformatf(
+                    "Error in User arbitration, sequence %0d not available", i))
+            return cast(int, i)
+
         uvm_fatal("Sequencer", "Internal error: Failed to choose sequence")
         return -1
 
 
+    def m_get_seq_item_priority(self, seq_q_entry) -> int:
+        # If the priority was set on the item, then that is used
+        if seq_q_entry.item_priority != -1:
+            if seq_q_entry.item_priority <= 0:
+                uvm_fatal("SEQITEMPRI", sv.sformatf(
+                    "Sequence item from %s has illegal priority: %0d",
+                    seq_q_entry.sequence_ptr.get_full_name(), seq_q_entry.item_priority))
+            return seq_q_entry.item_priority
+        # Otherwise, use the priority of the calling sequence
+        if seq_q_entry.sequence_ptr.get_priority() < 0:
+            uvm_fatal("SEQDEFPRI", sv.sformatf("Sequence %s has illegal priority: %0d",
+                seq_q_entry.sequence_ptr.get_full_name(), seq_q_entry.sequence_ptr.get_priority()))
+        return seq_q_entry.sequence_ptr.get_priority()
+
+
     async def m_wait_for_arbitration_completed(self, request_id):
         """
          extern           task          m_wait_for_arbitration_completed(int request_id)
-- 
2.43.0


From 221be367135e44884fe7c95665a7b30b4907480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 100/172] fix: stop_sequences and stop_phase_sequence crashed,
 sequences could not be killed

---
 src/uvm/seq/uvm_sequence_base.py  | 57 ++++++++++++-------------------
 src/uvm/seq/uvm_sequencer_base.py |  2 +-
 2 files changed, 23 insertions(+), 36 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 318573a..4dd7f55 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -898,28 +898,18 @@ class UVMSequenceBase(UVMSequenceItem):
     #  // with the other sequencer(s) using the sequencer unregister_sequence()
     #  // method.
     #
-    #  function void kill()
-    #    if (m_sequence_process is not None) begin
-    #      // If we are not connected to a sequencer, then issue
-    #      // kill locally.
-    #      if (self.m_sequencer == None) begin
-    #        m_kill()
-    #        // We need to drop the objection if we raised it...
-    #        if (get_automatic_phase_objection()) begin
-    #           m_safe_drop_starting_phase("automatic phase objection")
-    #        end
-    #        return
-    #      end
-    #      // If we are attached to a sequencer, then the sequencer
-    #      // will clear out queues, and then kill this sequence
-    #      self.m_sequencer.kill_sequence(this)
-    #      // We need to drop the objection if we raised it...
-    #      if (get_automatic_phase_objection()) begin
-    #         m_safe_drop_starting_phase("automatic phase objection")
-    #      end
-    #      return
-    #    end
-    #  endfunction
+    def kill(self):
+        if self.m_sequence_process is not None:
+            if self.m_sequencer is None:
+                # If we are not connected to a sequencer, then issue kill locally.
+                self.m_kill()
+            else:
+                # If we are attached to a sequencer, then the sequencer
+                # will clear out queues, and then kill this sequence
+                self.m_sequencer.kill_sequence(self)
+            # We need to drop the objection if we raised it...
+            if self.get_automatic_phase_objection():
+                self.m_safe_drop_starting_phase("automatic phase objection")
 
 
     def do_kill(self):
@@ -933,19 +923,16 @@ class UVMSequenceBase(UVMSequenceItem):
         return
 
 
-    #  function void m_kill()
-    #    do_kill()
-    #    foreach(children_array[i]) begin
-    #       i.kill()
-    #    end
-    #    if (m_sequence_process is not None) begin
-    #      m_sequence_process.kill
-    #      m_sequence_process = None
-    #    end
-    #    m_sequence_state = UVM_STOPPED
-    #    if ((self.m_parent_sequence is not None) && (self.m_parent_sequence.children_array.exists(this)))
-    #      self.m_parent_sequence.children_array.delete(this)
-    #  endfunction
+    def m_kill(self):
+        self.do_kill()
+        for child in list(self.children_array):
+            child.kill()
+        if self.m_sequence_process is not None:
+            self.m_sequence_process.kill()
+            self.m_sequence_process = None
+        self.m_sequence_state = UVM_STOPPED
+        if self.m_parent_sequence is not None and self in self.m_parent_sequence.children_array:
+            del self.m_parent_sequence.children_array[self]
 
 
     """
diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index be66544..5e5dcd6 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1061,7 +1061,7 @@ class UVMSequencerBase(UVMComponent):
         # when deleting all sequences
         if sequence_id == -1:
             if self.reg_sequences.has_first():
-                return self.reg_sequences.first()
+                return self.reg_sequences[self.reg_sequences.first()]
             return None
 
         if not self.reg_sequences.exists(sequence_id):
-- 
2.43.0


From 9c6626c634a51f5cb90b9c6b76878ed18e7a7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 101/172] fix: wait_for_sequence_state waited only in the state
 asked for

---
 src/uvm/seq/uvm_sequence_base.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 4dd7f55..7615582 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -166,6 +166,7 @@ class UVMSequenceBase(UVMSequenceItem):
             name (str): Name of the sequence
         """
         UVMSequenceItem.__init__(self, name)
+        self.m_state_event = Event('state_event')
         self.m_sequence_state = UVM_CREATED
         self.m_wait_for_grant_semaphore = 0
         self.m_init_phase_daps(1)
@@ -233,12 +234,18 @@ class UVMSequenceBase(UVMSequenceItem):
             state_mask:
         Raises:
         """
-        state = self.m_sequence_state & state_mask
-        if state in self.m_events:
-            await self.m_events[state].wait()
-        else:
-            raise Exception("Cannot wait for state " + str(state)
-                    + " - not implemented")
+        await wait(lambda: (self.m_sequence_state & state_mask) != 0, self.m_state_event)
+
+
+    @property
+    def m_sequence_state(self):
+        return self.m_state
+
+    @m_sequence_state.setter
+    def m_sequence_state(self, state):
+        self.m_state = state
+        self.m_state_event.set()
+
 
     def get_tr_handle(self):
         """
-- 
2.43.0


From 579074be4f36ba8c44ab81bc26f56d37faf07569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 102/172] fix: default sequences of phases were never started

---
 src/uvm/seq/uvm_sequencer_base.py | 47 +++++++++++--------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 5e5dcd6..e62017e 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -24,14 +24,12 @@
 import cocotb
 from cocotb.triggers import Event
 
-from .uvm_sequence import UVMSequence
 from .uvm_sequence_base import UVMSequenceBase
 
 from ..base.sv import sv, process
 from ..base.uvm_component import UVMComponent
 # from ..base.uvm_event import UVMEvent
-from ..base.uvm_resource import UVMResourcePool, UVMResource
-from ..base.uvm_config_db import UVMConfigDb
+from ..base.uvm_resource import UVMResourcePool
 from ..macros.uvm_message_defines import (
     uvm_error, uvm_fatal, uvm_info, uvm_report_fatal, uvm_warning)
 from ..base.uvm_object_globals import (UVM_FINISHED, UVM_FULL, UVM_NONE,
@@ -272,6 +270,7 @@ class UVMSequencerBase(UVMComponent):
         rq = []  # uvm_resource_types::rsrc_q_t
         seq = None  # uvm_sequence_base
         from ..base.uvm_coreservice import UVMCoreService
+        from ..base.uvm_factory import UVMObjectWrapper
         cs = UVMCoreService.get()
         f = cs.get_factory()  # uvm_factory
 
@@ -286,41 +285,27 @@ class UVMSequencerBase(UVMComponent):
             if seq is not None:
                 break
             rsrc = rq[i]  # uvm_resource_base
-            sbr = []  # type: List[UVMResource]
-            owr = []  # type: List[UVMResource]
+            val = rsrc.read(self)
 
-            # uvm_config_db#(uvm_sequence_base)?
             # Priority is given to uvm_sequence_base because it is a specific sequence instance
             # and thus more specific than one that is dynamically created via the
             # factory and the object wrapper.
-            if (sv.cast(sbr, rsrc, UVMConfigDb) and sbr[0] is not None):
-                seq = sbr[0].read(self)
-                if seq is None:
-                    uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
-
-            # uvm_config_db#(uvm_object_wrapper)?
-            elif (sv.cast(owr, rsrc, UVMConfigDb) and owr is not None):
-                wrapper = None  # uvm_object_wrapper
-                wrapper = owr[0].read(self)
-                if wrapper is None:
-                    uvm_info("UVM/SQR/PH/DEF/OW/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
-
-                new_obj = f.create_object_by_type(wrapper, self.get_full_name(),
-                        wrapper.get_type_name())
-                seq_arr = []
-                if not(sv.cast(seq_arr, new_obj, UVMSequence) or seq_arr[0] is None):
+            if isinstance(val, UVMSequenceBase):
+                seq = val
+            elif val is None:
+                uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
+                        + phase.get_name() + "' explicitly disabled", UVM_FULL)
+                await uvm_zero_delay()
+                return
+            elif isinstance(val, UVMObjectWrapper):
+                new_obj = f.create_object_by_type(val, self.get_full_name(),
+                        val.get_type_name())
+                if not isinstance(new_obj, UVMSequenceBase):
                     uvm_warning("PHASESEQ", "Default sequence for phase '" +
-                            phase.get_name() + "' %s is not a sequence type")
+                            phase.get_name() + "' is not a sequence type")
                     await uvm_zero_delay()
                     return
-                else:
-                    seq = seq_arr[0]
+                seq = new_obj
 
         if seq is None:
             uvm_info("PHASESEQ", "No default phase sequence for phase '"
-- 
2.43.0


From 3e8b37a50a985a9f1fc3a34f23fe319ed2b38115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 103/172] fix: a request with a lock crashed the sequencer, and
 has_lock did

---
 src/uvm/seq/uvm_sequencer_base.py | 54 ++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index e62017e..1c812a9 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -488,16 +488,22 @@ class UVMSequencerBase(UVMComponent):
         return 0
 
 
-    #  // Function: has_lock
-    #  //
-    #  // Returns 1 if the sequence referred to in the parameter currently has a lock
-    #  // on this sequencer, 0 otherwise.
-    #  //
-    #  // Note that even if this sequence has a lock, a child sequence may also have
-    #  // a lock, in which case the sequence is still blocked from issuing
-    #  // operations on the sequencer
-    #  //
-    #  extern function bit has_lock(uvm_sequence_base sequence_ptr)
+    def has_lock(self, sequence_ptr):
+        """
+        Returns 1 if the sequence referred to in the parameter currently has a lock
+        on this sequencer, 0 otherwise.
+
+        Note that even if this sequence has a lock, a child sequence may also have
+        a lock, in which case the sequence is still blocked from issuing
+        operations on the sequencer
+        """
+        if sequence_ptr is None:
+            self.uvm_report_fatal("uvm_sequence_controller",
+                "has_lock passed None sequence_ptr", UVM_NONE)
+        for seq in self.lock_list:
+            if seq.get_inst_id() == sequence_ptr.get_inst_id():
+                return 1
+        return 0
 
 
     #  // Task: lock
@@ -526,11 +532,22 @@ class UVMSequencerBase(UVMComponent):
     #  extern virtual task grab(uvm_sequence_base sequence_ptr)
 
 
-    #  // Function: unlock
-    #  //
-    #  // Removes any locks and grabs obtained by the specified sequence_ptr.
-    #  //
-    #  extern virtual function void unlock(uvm_sequence_base sequence_ptr)
+    def unlock(self, sequence_ptr):
+        """
+        Removes any locks and grabs obtained by the specified sequence_ptr.
+        """
+        if sequence_ptr is None:
+            self.uvm_report_fatal("uvm_sequencer",
+                "m_unlock_req passed None sequence_ptr", UVM_NONE)
+        seqid = sequence_ptr.get_inst_id()
+        idx = self.lock_list.find_first_index(lambda item: item.get_inst_id() == seqid)
+        if idx >= 0:
+            self.lock_list.delete(idx)
+            self.grant_queued_locks()
+            self.m_update_lists()
+        else:
+            self.uvm_report_warning("SQRUNL", "Sequence '" + sequence_ptr.get_full_name() +
+                "' called ungrab / unlock, but didn't have lock", UVM_NONE)
 
 
     #  // Function: ungrab
@@ -674,8 +691,7 @@ class UVMSequencerBase(UVMComponent):
         q = []  # uvm_sequence_request q[$]
         def find_with_func(item):
             return (item.request == SEQ_TYPE_LOCK and
-                    item.process_id.status == process.KILLED or
-                    item.process_id.status == process.FINISHED)
+                    item.process_id.status in [process.KILLED, process.FINISHED])
         q = self.arb_sequence_q.find_with(find_with_func)
                 #item, [{request: SEQ_TYPE_LOCK}, {'process_id.status':
                 #    [process::KILLED, process::FINISHED])
@@ -700,7 +716,7 @@ class UVMSequencerBase(UVMComponent):
 
         if b != 0:  # at least one lock
             # set of locks; arb_sequence[b] is the first req!=SEQ_TYPE_LOCK
-            leading_lock_reqs = cast(SeqReqList, self.arb_sequence_q[0:b-1])
+            leading_lock_reqs = cast(SeqReqList, self.arb_sequence_q.queue[0:b])
             # split into blocked/not-blocked requests
             for i in range(len(leading_lock_reqs)):
                 item: uvm_sequence_request = leading_lock_reqs[i]
@@ -712,7 +728,7 @@ class UVMSequencerBase(UVMComponent):
             if b > (self.arb_sequence_q.size()-1):
                 self.arb_sequence_q = blocked_seqs
             else:
-                bseqs = cast(SeqReqList, self.arb_sequence_q[b:self.arb_sequence_q.size()-1])
+                bseqs = cast(SeqReqList, self.arb_sequence_q.queue[b:])
                 for seq in bseqs:
                     blocked_seqs.push_back(seq)
                 self.arb_sequence_q = blocked_seqs
-- 
2.43.0


From 6de2968af9bdfdb18a9946fc11bf3d63477a0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 104/172] fix: responses sent through rsp_port were dropped

---
 src/uvm/seq/uvm_sequencer_param_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/seq/uvm_sequencer_param_base.py b/src/uvm/seq/uvm_sequencer_param_base.py
index 2a12357..843ba4c 100644
--- a/src/uvm/seq/uvm_sequencer_param_base.py
+++ b/src/uvm/seq/uvm_sequencer_param_base.py
@@ -345,7 +345,9 @@ class UVMSequencerParamBase(UVMSequencerBase):
 
     #  /* local */ extern virtual function void do_print (uvm_printer printer)
 
-    #  /* local */ extern virtual function void analysis_write(uvm_sequence_item t)
+    def analysis_write(self, t):
+        self.put_response(t)
+
 
     def m_last_req_push_front(self, item):
         """
-- 
2.43.0


From b7d7bac179c140efc2fd69fad087166fc83b435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:08 +0000
Subject: [PATCH 105/172] fix: a driver got no item any more after
 stop_sequences

---
 src/uvm/seq/uvm_sequencer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index 0829151..3ffb0f5 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -108,11 +108,11 @@ class UVMSequencer(UVMSequencerParamBase):
         # If a sequence_item has already been requested, then get_next_item()
         # should not be called again until item_done() has been called.
 
-        if self.get_next_item_called is True:
+        if self.get_next_item_called:
             self.uvm_report_error(self.get_full_name(),
                 "Get_next_item called twice without item_done or get in between", UVM_NONE)
 
-        if self.sequence_item_requested is False:
+        if not self.sequence_item_requested:
             await self.m_select_sequence()
 
         # Set flag indicating that the item has been requested to ensure that item_done or get
-- 
2.43.0


From d1f5652064a0342246e10e481089c2d01ac61555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 106/172] fix: UVMPool.delete keeps the place of an iteration

---
 src/uvm/base/uvm_pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 23503ca..6bee992 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -108,9 +108,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
 
     def delete(self, key=None) -> None:
         if key is None:
-            self.pool = {}
+            self.pool = collections.OrderedDict()
+            self.ptr = -1
         else:
             if key in self.pool:
+                # next() continues with the key after the deleted one
+                if self.key_list().index(key) <= self.ptr:
+                    self.ptr -= 1
                 del self.pool[key]
 
     def exists(self, key: KEY) -> bool:
-- 
2.43.0


From 4488c837b279677f0245f501e46e4722fb6d109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 107/172] fix: UVMObjectStringPool.delete removes the item
 instead of recursing

---
 src/uvm/base/uvm_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 6bee992..4a10faa 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -314,7 +314,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         if not self.exists(key):
             uvm_warning("POOLDEL", "delete: key '{}' doesn't exist".format(key))
             return
-        self.delete(key)
+        super().delete(key)
     #  endfunction
 
     def do_print(self, printer) -> None:
-- 
2.43.0


From 284bda7f8aa240145be8a1bab3caf25e2b883133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 108/172] fix: copying a UVMPool copies its items

---
 src/uvm/base/uvm_pool.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 4a10faa..51dc24a 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -168,6 +168,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
     def create(self, name="") -> 'UVMPool':
         return UVMPool(name, self.T)
 
+    def do_copy(self, rhs) -> None:
+        UVMObject.do_copy(self, rhs)
+        if not isinstance(rhs, UVMPool):
+            return
+        self.pool = collections.OrderedDict(rhs.pool)
+        self.ptr = -1
+
     def do_print(self, printer) -> None:
         while self.has_next():
             key = self.next()
-- 
2.43.0


From 23ce2f30ad682fa3287acb7de9eaaec8435dcc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 109/172] fix: printing a pool prints every item and leaves its
 iteration alone

---
 src/uvm/base/uvm_pool.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 51dc24a..81371d1 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -176,14 +176,12 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
         self.ptr = -1
 
     def do_print(self, printer) -> None:
-        while self.has_next():
-            key = self.next()
-            item = self.pool[key]
+        for key, item in self.pool.items():
             # print_generic(self, name, type_name, size, value, scope_separator="."):
             if hasattr(item, 'convert2string'):
                 printer.print_string(item.get_name(), item.convert2string())
             else:
-                name = ""
+                name = str(key)
                 if hasattr(key, 'get_name'):
                     name = key.get_name()
                 printer.print_generic(name, '', 0, str(item))
@@ -331,17 +329,10 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Args:
             printer (UVMPrinter): Printer used for printing
         """
-        key = ""
         num_keys = len(list(self.pool.keys()))
         printer.print_array_header("pool", num_keys,"aa_object_string")
-        if self.has_first():
-            key = self.first()
-            while True:
-                printer.print_object("[" + key + "]", self.pool[key],"[")
-                if self.has_next():
-                    key = self.next()
-                else:
-                    break
+        for key in self.pool:
+            printer.print_object("[" + key + "]", self.pool[key],"[")
         printer.print_array_footer()
     # endfunction
 
-- 
2.43.0


From dbac85f26505710ab16ace707e0d0b747ecd4b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 110/172] fix: a slice of a UVMQueue is the list of those items

---
 src/uvm/base/uvm_queue.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 1be026e..1ff2e6c 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -137,11 +137,7 @@ class UVMQueue(UVMObject, Generic[T]):
         Raises:
         """
         if isinstance(i, slice):
-            # TODO should handle slices like [:] and [:-1]
-            res = []
-            for i in range(slice.start, slice.stop):
-                res.append(self.queue[i])
-            return res
+            return self.queue[i]
         elif i < self.size():
             return self.queue[i]
         else:
-- 
2.43.0


From d66bc221227066761c27edd16de0fd4a1611a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 111/172] fix: copying a UVMQueue does not share the items'
 list

---
 src/uvm/base/uvm_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 1ff2e6c..0f2ac67 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -246,7 +246,7 @@ class UVMQueue(UVMObject, Generic[T]):
         if rhs is None:
             return
         UVMObject.do_copy(self, rhs)
-        self.queue = rhs.queue
+        self.queue = list(rhs.queue)
 
     def convert2string(self) -> str:
         return str(self.queue)
-- 
2.43.0


From 4ead0e470ebdfd229618dd6aa6f30d9639d0c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 112/172] fix: elements after the first of a printed array of
 objects are printed at their level

---
 src/uvm/base/uvm_printer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index bc3d587..b754032 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -243,7 +243,6 @@ class UVMPrinter():
                 # Handle children of the comp
                 #if($cast(comp, value)) begin
                 comp = value
-                name = ""
                 if hasattr(comp, "has_first_child"):
                     if comp.has_first_child():
                         child_comp = comp.get_first_child()
-- 
2.43.0


From 3caba7dc0cbf3a8896299135fff058e56a67ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 113/172] fix: an octal field is printed in octal

---
 src/uvm/base/uvm_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index c76d5f5..c822c60 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -204,7 +204,7 @@ def num_with_radix(radix, radix_str: str, value) -> str:
     if radix == UVM_BIN:
         return "{}{:b}".format(radix_str, value)
     if radix == UVM_OCT:
-        return "{}{}".format(radix_str, value)
+        return "{}{:o}".format(radix_str, value)
     if radix == UVM_UNSIGNED:
         return "{}{}".format(radix_str, value)
     if radix == UVM_STRING:
-- 
2.43.0


From 4e97545a4eb6e2867f6ded4be4c9de5ba36db724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 114/172] fix: uvm_leaf_scope does not take a bracket separator
 for a regular expression

---
 src/uvm/base/uvm_misc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index c822c60..6914a7c 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -158,10 +158,7 @@ def uvm_leaf_scope(full_name: str, scope_separator=".") -> str:
         bracket_match = ""
 
     if bracket_match == "":
-        regex = re.compile(scope_separator)
-        if scope_separator == ".":
-            regex = re.compile(r"\.")
-        if not regex.search(full_name):
+        if scope_separator not in full_name:
             return full_name
 
     pos = 0
-- 
2.43.0


From 05b423fb2d78b50e9e2dbacfc8056274eb84d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 115/172] fix: UVMPrinter.index_string returns the index in
 brackets

---
 src/uvm/base/uvm_printer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index b754032..383710a 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -451,8 +451,7 @@ class UVMPrinter():
             index:
             name:
         """
-        res = "{}".index
-        res = name + "[" + res + "]"
+        return name + "[" + str(index) + "]"
 
 #------------------------------------------------------------------------------
 #
-- 
2.43.0


From 389904185eab1808dda9ca435b4f13a2a52eb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:38 +0000
Subject: [PATCH 116/172] fix: a negative decimal field is printed with its
 sign

---
 src/uvm/base/uvm_misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index 6914a7c..efd9fde 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -78,7 +78,7 @@ def uvm_bitstream_to_string(value, size, radix=UVM_NORADIX, radix_str="") -> str
         str: Given number as string.
     """
     # sign extend & don't show radix for negative values
-    if radix == UVM_DEC and (value >> (size-1)):
+    if radix == UVM_DEC and (value >> (size-1)) & 1:
         return "{}".format(value)
 
     # TODO $countbits(value,'z) would be even better
@@ -105,7 +105,7 @@ def uvm_integral_to_string(value, size, radix=UVM_NORADIX, radix_str="") -> str:
         str:
     """
     # sign extend & don't show radix for negative values
-    if radix == UVM_DEC and (value >> (size-1)) == 1:
+    if radix == UVM_DEC and (value >> (size-1)) & 1:
         return "{}".format(value)
 
     # TODO $countbits(value,'z) would be even better
-- 
2.43.0


From b527804fb40659f92e875f06379a204473b3f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 117/172] fix: UVMCmdlineProcessor.get_plusargs returns the
 arguments, not their first letters

---
 src/uvm/base/uvm_cmdline_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index b4b064d..1a9b42f 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -526,7 +526,7 @@ class UVMCmdlineProcessor(UVMReportObject):
                 continue
             self.m_argv.append(arg)
             if arg[0] == "+":
-                self.m_plus_argv.append(arg[0])
+                self.m_plus_argv.append(arg)
                 uvm_debug(self, '__init__', "Simple UVM plusarg %s" % (arg))
             sub = arg[1:4]
             sub = sub.upper()
-- 
2.43.0


From b107a49d5c0d0f60d2563214d728b5cbba0465ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 118/172] fix: get_arg_matches searches the arguments for the
 whole expression between the slashes

---
 src/uvm/base/uvm_cmdline_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index 1a9b42f..b267548 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -255,7 +255,7 @@ def uvm_dpi_regcomp(match):
 
 
 def uvm_dpi_regexec(exp_h, elem):
-    if exp_h.match(elem) is not None:
+    if exp_h.search(elem) is not None:
         return 0
     return 1
 
@@ -371,7 +371,7 @@ class UVMCmdlineProcessor(UVMReportObject):
         match_len = len(match)
         args.clear()
         if len(match) > 2 and match[0] == "/" and match[len(match)-1] == "/":
-            match = match[1:len(match)-2]
+            match = match[1:len(match)-1]
             exp_h = uvm_dpi_regcomp(match)
             if exp_h is None:
                 uvm_error("UVM_CMDLINE_PROC",
-- 
2.43.0


From fbd72093871ad668f46b8c76c6588dff9a1fbb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 119/172] fix: malformed +uvm_set_verbosity settings are
 reported, and do not crash the build of the root

---
 src/uvm/base/uvm_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 5bbd5dc..5063e37 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -538,10 +538,12 @@ class UVMRoot(UVMComponent):
         self.clp.get_arg_values("+uvm_set_verbosity=", set_verbosity_settings)
 
         for i in range(len(set_verbosity_settings)):
+            split_vals.clear()
             uvm_split_string(set_verbosity_settings[i], ",", split_vals)
             if len(split_vals) < 4 or len(split_vals) > 5:
                 self.uvm_report_warning("INVLCMDARGS",
                   sv.sformatf(MSG_INVLCMDARGS, set_verbosity_settings[i]), UVM_NONE, "", "")
+                continue
 
             # Invalid verbosity
             if self.clp.m_convert_verb(split_vals[2]) == -1:
-- 
2.43.0


From 589a997e818178423fe51037bfce88a3a5b41140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:43 +0000
Subject: [PATCH 120/172] fix: malformed +uvm_set_verbosity settings are
 skipped by every component

---
 src/uvm/base/uvm_component.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index af991b5..a3477a2 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2368,10 +2368,8 @@ class UVMComponent(UVMReportObject):
             uvm_split_string(values[i], ",", args)
 
             # Warning is already issued in uvm_root, so just don't keep it
-            len_match = len(args) not in [4, 5]
-            setting.verbosity = clp.m_convert_verb(args[2])
-            if UVMComponent.first_m_set_cl_verb and (len_match or setting.verbosity == -1):
-                del values[i]
+            if len(args) not in [4, 5] or clp.m_convert_verb(args[2]) == -1:
+                continue
             else:
                 setting.comp = args[0]
                 setting.id = args[1]
-- 
2.43.0


From ff4803a57a82fefe4fab382fb09e866a79ee7170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:43 +0000
Subject: [PATCH 121/172] fix: malformed +uvm_set_action settings are reported
 and skipped, also UVM_INFO and UVM_NO_ACTION are accepted

---
 src/uvm/base/uvm_component.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index a3477a2..fb9ab1d 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2445,12 +2445,13 @@ class UVMComponent(UVMReportObject):
 
                 if len(args) != 4:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN1, len(args), values[idx]))
+                    continue
 
-                if((args[2] != "_ALL_") and not uvm_string_to_severity(args[2], sev)):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN2, args[2], values[idx]))
                     continue
 
-                if not uvm_string_to_action(args[3], action):
+                if uvm_string_to_action(args[3], action) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN3, args[3], values[idx]))
                     continue
                 t.args = args
-- 
2.43.0


From ab30ac123cc2b39a4df74cf305b0d36012f1ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 122/172] fix: uvm_string_to_action tells an unknown action
 from UVM_NO_ACTION

---
 src/uvm/base/uvm_globals.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index b20cadd..d3bf8f2 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -216,20 +216,22 @@ def uvm_string_to_action(action_str, action):
     for i in range(len(actions)):
         if actions[i] == "UVM_NO_ACTION":
             action |= UVM_NO_ACTION
-        if actions[i] == "UVM_DISPLAY":
+        elif actions[i] == "UVM_DISPLAY":
             action |= UVM_DISPLAY
-        if actions[i] == "UVM_LOG":
+        elif actions[i] == "UVM_LOG":
             action |= UVM_LOG
-        if actions[i] == "UVM_COUNT":
+        elif actions[i] == "UVM_COUNT":
             action |= UVM_COUNT
-        if actions[i] == "UVM_EXIT":
+        elif actions[i] == "UVM_EXIT":
             action |= UVM_EXIT
-        if actions[i] == "UVM_CALL_HOOK":
+        elif actions[i] == "UVM_CALL_HOOK":
             action |= UVM_CALL_HOOK
-        if actions[i] == "UVM_STOP":
+        elif actions[i] == "UVM_STOP":
             action |= UVM_STOP
-        if actions[i] == "UVM_RM_RECORD":
+        elif actions[i] == "UVM_RM_RECORD":
             action |= UVM_RM_RECORD
+        else:
+            return -1
     return action
 
 """
-- 
2.43.0


From 5c605c528c307624eebc2164b9431b0ffd7a8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 123/172] fix: +uvm_set_severity accepts settings for UVM_INFO
 and rejects unknown severities

---
 src/uvm/base/uvm_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index fb9ab1d..b4776c7 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2507,7 +2507,7 @@ class UVMComponent(UVMReportObject):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN4, len(args), values[idx]))
                     continue
 
-                if args[2] != "_ALL_" and not uvm_string_to_severity(args[2], orig_sev):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], orig_sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN5, args[2], values[idx]))
                     continue
 
-- 
2.43.0


From 08660d39877083b7bd53b975689d68bf7e176350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 124/172] fix: a phase's verbosity settings are applied at the
 phase, or its offset later, instead of raising TypeError

---
 src/uvm/base/uvm_component.py | 42 ++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index b4776c7..752650c 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2574,29 +2574,25 @@ class UVMComponent(UVMReportObject):
         Args:
             phase:
         """
-        pass
-        for i in self.m_verbosity_settings:
-            if phase.get_name() == self.m_verbosity_settings[i].phase:
-                if self.m_verbosity_settings[i].offset == 0:
-                    if self.m_verbosity_settings[i].id == "_ALL_":
-                        self.set_report_verbosity_level(self.m_verbosity_settings[i].verbosity)
-                    else:
-                        self.set_report_id_verbosity(self.m_verbosity_settings[i].id,
-                                self.m_verbosity_settings[i].verbosity)
-                else:
-                    #process p = process::self()
-                    #string p_rand = p.get_randstate()
-                    #fork begin
-                    setting = self.m_verbosity_settings[i]
-                    #setting.offset
-                    if setting.id == "_ALL_":
-                        self.set_report_verbosity_level(setting.verbosity)
-                    else:
-                        self.set_report_id_verbosity(setting.id, setting.verbosity)
-                    #end join_none
-                    #p.set_randstate(p_rand)
-                # Remove after use
-                del self.m_verbosity_settings[i]
+        settings = self.m_verbosity_settings
+        self.m_verbosity_settings = []
+        for setting in settings:
+            if phase.get_name() != setting.phase:
+                self.m_verbosity_settings.append(setting)
+            elif setting.offset == 0:
+                self.m_apply_verbosity_setting(setting)
+            else:
+                cocotb.start_soon(self.m_apply_verbosity_setting_later(setting))
+
+    def m_apply_verbosity_setting(self, setting):
+        if setting.id == "_ALL_":
+            self.set_report_verbosity_level(setting.verbosity)
+        else:
+            self.set_report_id_verbosity(setting.id, setting.verbosity)
+
+    async def m_apply_verbosity_setting_later(self, setting):
+        await Timer(setting.offset)
+        self.m_apply_verbosity_setting(setting)
 
     def kill(self):
         """
-- 
2.43.0


From bb2b2850b27d4d84e255f3df2378104eb4f5d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:47 +0000
Subject: [PATCH 125/172] fix: an illegal +UVM_VERBOSITY gives a warning and
 UVM_MEDIUM instead of ValueError

---
 src/uvm/base/uvm_root.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 5063e37..1feda9f 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -842,7 +842,10 @@ class UVMRoot(UVMComponent):
             elif verb_string == "DEBUG":
                 verbosity = UVM_DEBUG
             else:
-                verbosity = int(verb_string)
+                try:
+                    verbosity = int(verb_string)
+                except ValueError:
+                    verbosity = 0
                 if verbosity > 0:
                     self.uvm_report_info("NSTVERB",
                             sv.sformatf(NON_STD_VERB, verbosity), UVM_NONE)
-- 
2.43.0


From 6bd254c035df64c2ab3dc6c03baed5e3d0ba170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 126/172] fix: timed +uvm_set_verbosity settings take effect at
 their times

---
 src/uvm/base/uvm_component.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 752650c..610f35c 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2404,24 +2404,15 @@ class UVMComponent(UVMReportObject):
         last_time = 0
         if len(m_time_settings) > 0:
             m_time_settings.sort(key=lambda item: item.offset)
-        for i in range(len(m_time_settings)):
+        for setting in m_time_settings:
+            if setting.offset > last_time:
+                await Timer(setting.offset - last_time)
+                last_time = setting.offset
             comps = []
-            top.find_all(m_time_settings[i].comp, comps)
-            duration = m_time_settings[i].offset - last_time
-            last_time = m_time_settings[i].offset
-            cocotb.start_soon(self.m_set_comp_settings(i, comps.copy(), duration))
-        #end join_none // fork begin
-
-
-    async def m_set_comp_settings(self, i, comps, dur):
-        m_time_settings = UVMComponent.m_time_settings
-        await Timer(dur)
-        if m_time_settings[i].id == "_ALL_":
+            top.find_all(setting.comp, comps)
             for comp in comps:
-                comp.set_report_verbosity_level(m_time_settings[i].verbosity)
-        else:
-            for comp in comps:
-                comp.set_report_id_verbosity(m_time_settings[i].id, m_time_settings[i].verbosity)
+                comp.m_apply_verbosity_setting(setting)
+        #end join_none // fork begin
 
 
     initialized_m_set_cl_action = 0
-- 
2.43.0


From bf6734299f3bc4e61922803330d6468a025ccdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 127/172] fix: +UVM_TIMEOUT with and without YES or NO sets
 that timeout

---
 src/uvm/base/uvm_root.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 1feda9f..c80a530 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -581,9 +581,11 @@ class UVMRoot(UVMComponent):
                 sv.sformatf("'+UVM_TIMEOUT=%s' provided on the command line is being applied.",
                     timeout), UVM_NONE)
 
-            matches = sv.sscanf(timeout,"%d,%s", timeout_int, override_spec)
-            if len(matches) == 2:
-                override_spec, timeout_int = matches
+            split_timeout = []
+            uvm_split_string(timeout, ",", split_timeout)
+            timeout_int = int(split_timeout[0])
+            if len(split_timeout) > 1:
+                override_spec = split_timeout[1]
             if override_spec == "YES":
                 self.set_timeout(timeout_int, 1)
             elif override_spec == "NO":
-- 
2.43.0


From 15fe73b104404330122c04984a40ec93cc45467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 128/172] fix: the third argument of +UVM_MAX_QUIT_COUNT does
 not make the count ignored

---
 src/uvm/base/uvm_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index c80a530..4263230 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -701,6 +701,8 @@ class UVMRoot(UVMComponent):
                     srvr.set_max_quit_count(max_quit_int, 1)
                 elif split_max_quit[1] == "NO":
                     srvr.set_max_quit_count(max_quit_int, 0)
+                else:
+                    srvr.set_max_quit_count(max_quit_int, 1)
             else:
                 srvr.set_max_quit_count(max_quit_int, 1)
 
-- 
2.43.0


From b63c5c1ed4f26aedd960aec8a80ee1fae76afdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 129/172] fix: UVMRoot.find warns, and returns None, when
 nothing matches

---
 src/uvm/base/uvm_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 4263230..e9f0f02 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -415,8 +415,8 @@ class UVMRoot(UVMComponent):
 
         if len(comp_list) == 0:
             uvm_report_warning("CMPNFD",
-              "Component matching '", comp_match,
-               "' was not found in the list of uvm_components", UVM_NONE)
+              "Component matching '" + comp_match
+               + "' was not found in the list of uvm_components", UVM_NONE)
             return None
 
         return comp_list[0]
-- 
2.43.0


From 13c769fb11bead13d4b6f164454b78214ef55777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 130/172] fix: uvm_string_to_bits shifts by one byte per letter

---
 src/uvm/base/uvm_globals.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index d3bf8f2..d857be6 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -270,10 +270,8 @@ def uvm_string_to_bits(string: str) -> int:
     """
     bytearr = string.encode()
     result = 0
-    shift = 0
     for bb in bytearr:
-        result = (result << shift) | bb
-        shift += 8
+        result = (result << 8) | bb
     return result
 
 
-- 
2.43.0


From 3f9e36d69856b8d9cc0e24bb60d8724305784aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 131/172] fix: +uvm_set_type_override sets a type override

---
 src/uvm/base/uvm_root.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index e9f0f02..f98c549 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -642,7 +642,31 @@ class UVMRoot(UVMComponent):
         Args:
             ovr:
         """
-        pass  # TODO
+        from .uvm_coreservice import UVMCoreService
+        split_val = []
+        replace = 1
+        factory = UVMCoreService.get().get_factory()
+
+        uvm_split_string(ovr, ",", split_val)
+
+        if len(split_val) not in [2, 3]:
+            self.uvm_report_error("UVM_CMDLINE_PROC", "Invalid setting for +uvm_set_type_override="
+                + ovr
+                + ", setting must specify <requested_type>,<override_type>[,<replace>]", UVM_NONE)
+            return
+
+        if len(split_val) == 3:
+            if split_val[2] not in ["0", "1"]:
+                self.uvm_report_error("UVM_CMDLINE_PROC",
+                    "Invalid replace arg for +uvm_set_type_override="
+                    + ovr + ", value must be 0 or 1", UVM_NONE)
+                return
+            replace = int(split_val[2])
+
+        uvm_info("TYPOVR",
+            "Applying type override from the command line: +uvm_set_type_override=" + str(ovr),
+            UVM_NONE)
+        factory.set_type_override_by_name(split_val[0], split_val[1], replace)
 
 
     def m_do_config_settings(self):
-- 
2.43.0


From 260931e0f88491c3d2fc911fa27a613c0d24f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 132/172] fix: get_uvm_args returns only arguments that start
 with - or +

---
 src/uvm/base/uvm_cmdline_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index b267548..3071d75 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -530,7 +530,7 @@ class UVMCmdlineProcessor(UVMReportObject):
                 uvm_debug(self, '__init__', "Simple UVM plusarg %s" % (arg))
             sub = arg[1:4]
             sub = sub.upper()
-            if sub == "UVM":
+            if arg[0] in ["+", "-"] and sub == "UVM":
                 self.m_uvm_argv.append(arg)
                 uvm_debug(self, '__init__', "Found UVM plusarg %s" % (arg))
 
-- 
2.43.0


From cca4a93f089713ec25a150557713703ddcd8421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:58 +0000
Subject: [PATCH 133/172] fix: set_domain reaches the children whenever hier is
 true

---
 src/uvm/base/uvm_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 610f35c..48b330a 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -987,7 +987,7 @@ class UVMComponent(UVMReportObject):
         # build and store the custom domain
         self.m_domain = domain
         self.define_domain(domain)
-        if hier is True:
+        if hier:
             for c in self.m_children:
                 self.m_children[c].set_domain(domain)
 
-- 
2.43.0


From caef57fbb61b1e8c55b3d3a706fe61a530c7919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 134/172] fix: a max quit count set as not overridable on the
 command line stays

---
 src/uvm/base/uvm_report_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index 37f9387..ea0279e 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -195,7 +195,7 @@ class UVMReportServer(UVMObject):
     # before a UVM_EXIT action is taken. The default is 0, which specifies
     # no maximum.
     def set_max_quit_count(self, count, overridable=True):
-        if self.max_quit_overridable is False:
+        if not self.max_quit_overridable:
             uvm_report_info("NOMAXQUITOVR",
                 "The max quit count setting of {} is not overridable to {} due to a previous setting."
                 .format(self.m_max_quit_count, count), UVM_NONE)
-- 
2.43.0


From 6ac3e4ed98b29e4a5453843582580c273b4f97f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 135/172] fix: the timeout given by set_timeout or +UVM_TIMEOUT
 ends the run phase with a fatal

---
 src/uvm/base/uvm_phase.py | 12 +++++++++++-
 src/uvm/base/uvm_root.py  |  2 ++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index fbcb8f1..81431f2 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -36,7 +36,7 @@ The following class are used to specify a phase and its implied functionality.
 
 from typing import Dict, List
 import cocotb
-from cocotb.triggers import Event, Combine
+from cocotb.triggers import Event, Combine, Timer
 
 from ..macros.uvm_object_defines import uvm_object_utils
 from ..macros.uvm_message_defines import uvm_fatal, uvm_info
@@ -1360,7 +1360,12 @@ class UVMPhase(UVMObject):
                 #join_none
 
                 await uvm_wait_for_nba_region()  # Give sequences, etc. a chance to object
+                timeout_proc = None
+                if self.get_name() == "run" and top.m_timeout_set and top.phase_timeout != 0:
+                    timeout_proc = cocotb.start_soon(self._wait_timeout(top.phase_timeout))
                 await self.wait_for_criterion_for_end_phase(state_chg)
+                if timeout_proc is not None:
+                    timeout_proc.kill()
                 uvm_debug(self, 'execute_phase', "End criterion reached for " +
                         top.get_name())
         #  end # PHASE_NODE
@@ -1514,6 +1519,11 @@ class UVMPhase(UVMObject):
         #endtask
 
 
+    async def _wait_timeout(self, timeout):
+        await Timer(timeout)
+        uvm_fatal("PH_TIMEOUT", ("Explicit timeout of {} hit, indicating a probable testbench issue"
+            .format(timeout)))
+
     async def _wait_all_predecessors_done(self):
         nn = self.get_name()
         if self.has_predecessors():
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index f98c549..3aaf7ff 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -164,6 +164,7 @@ class UVMRoot(UVMComponent):
         #  //
         #  // Specifies the timeout for the run phase. Default is `UVM_DEFAULT_TIMEOUT
         self.phase_timeout = UVM_DEFAULT_TIMEOUT
+        self.m_timeout_set = False
 
         # Handle to the DUT (added for uvm-python)
         self._dut = None
@@ -389,6 +390,7 @@ class UVMRoot(UVMComponent):
 
         UVMRoot.m_uvm_timeout_overridable = overridable
         self.phase_timeout = timeout
+        self.m_timeout_set = True
 
 
     """
-- 
2.43.0


From edcc2e88c63cf1ceba3ce7b27daee7bf29d9a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 136/172] fix: +uvm_set_default_sequence sets the default
 sequence

---
 src/uvm/base/uvm_root.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 3aaf7ff..9207038 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -687,10 +687,9 @@ class UVMRoot(UVMComponent):
         for i in range(len(args)):
             self.m_process_config(args[i][23:len(args[i])], 0)
 
-        # TODO might not be needed, ever
-        #self.clp.get_arg_matches("/^\\+(UVM_SET_DEFAULT_SEQUENCE|uvm_set_default_sequence)=/", args)
-        #for i in range(len(args)):
-        #    self.m_process_default_sequence(args[i][26:len(args[i])])
+        self.clp.get_arg_matches("/^\\+(UVM_SET_DEFAULT_SEQUENCE|uvm_set_default_sequence)=/", args)
+        for i in range(len(args)):
+            self.m_process_default_sequence(args[i][26:len(args[i])])
 
 
     def m_do_max_quit_settings(self):
@@ -807,7 +806,27 @@ class UVMRoot(UVMComponent):
             UVMConfigDb.set(m_uvm_top, split_val[0], split_val[1], split_val[2])
 
 
-    #  extern local function void m_process_default_sequence(string cfg)
+    def m_process_default_sequence(self, cfg):
+        """
+        extern local function void m_process_default_sequence(string cfg)
+        Args:
+            cfg:
+        """
+        from .uvm_coreservice import UVMCoreService
+        split_val = []
+        uvm_split_string(cfg, ",", split_val)
+        if len(split_val) != 3:
+            self.uvm_report_error("UVM_CMDLINE_PROC", "Invalid +uvm_set_default_sequence command \""
+                + cfg + "\": expected 3 fields (sequencer, phase and type).", UVM_NONE)
+            return
+        wrapper = UVMCoreService.get().get_factory().find_wrapper_by_name(split_val[2])
+        if wrapper is None:
+            self.uvm_report_error("UVM_CMDLINE_PROC", "Invalid type '" + split_val[2]
+                + "' provided to +uvm_set_default_sequence", UVM_NONE)
+            return
+        self.uvm_report_info("UVM_CMDLINE_PROC",
+            "Applying default sequence from the command line: +uvm_set_default_sequence=" + cfg, UVM_NONE)
+        UVMConfigDb.set(self, split_val[0] + "." + split_val[1], "default_sequence", wrapper)
 
     def m_check_verbosity(self):
         """
-- 
2.43.0


From b65644c88366f061cbfd76395adfee258cca3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 137/172] fix: instance overrides by name, as used by
 +uvm_set_inst_override

---
 src/uvm/base/uvm_factory.py | 105 +++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 57 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 5df36ef..2dc54b3 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -408,63 +408,54 @@ class UVMDefaultFactory(UVMFactory):
         self.m_inst_override_queues[original_type].push_back(override)
 
 
-    # set_inst_override_by_name
-    # TODO
-    #function void uvm_default_factory::set_inst_override_by_name (
-    # string original_type_name,
-    #                                                      string override_type_name,
-    #                                                      string full_inst_path)
-    #
-    #  uvm_factory_override override
-    #  uvm_object_wrapper original_type
-    #  uvm_object_wrapper override_type
-    #
-    #  if(self.m_type_names.exists(original_type_name))
-    #    original_type = self.m_type_names[original_type_name]
-    #
-    #  if(self.m_type_names.exists(override_type_name))
-    #    override_type = self.m_type_names[override_type_name]
-    #
-    #  // check that type is registered with the factory
-    #  if (override_type  is None):
-    #    uvm_report_error("TYPNTF", {"Cannot register instance override with type name '",
-    #    original_type_name,"' and instance path '",full_inst_path,"' because the type it's supposed ",
-    #    "to produce, '",override_type_name,"', is not registered with the factory."}, UVM_NONE)
-    #    return
-    #  end
-    #
-    #  if (original_type  is None)
-    #      m_lookup_strs[original_type_name] = 1
-    #
-    #  override = new(.full_inst_path(full_inst_path),
-    #                 .orig_type(original_type),
-    #                 .orig_type_name(original_type_name),
-    #                 .ovrd_type(override_type))
-    #
-    #  if(original_type != null):
-    #    if (check_inst_override_exists(original_type,override_type,full_inst_path))
-    #      return
-    #    if(!m_inst_override_queues.exists(original_type))
-    #      m_inst_override_queues[original_type] = new
-    #    m_inst_override_queues[original_type].queue.push_back(override)
-    #  end
-    #  else:
-    #    if(m_has_wildcard(original_type_name)):
-    #       foreach(self.m_type_names[i]):
-    #         if(uvm_is_match(original_type_name,i)):
-    #           this.set_inst_override_by_name(i, override_type_name, full_inst_path)
-    #         end
-    #       end
-    #       m_wildcard_inst_overrides.push_back(override)
-    #    end
-    #    else:
-    #      if(!self.m_inst_override_name_queues.exists(original_type_name))
-    #        self.m_inst_override_name_queues[original_type_name] = new
-    #      self.m_inst_override_name_queues[original_type_name].queue.push_back(override)
-    #    end
-    #  end
-    #
-    #endfunction
+    def set_inst_override_by_name(self, original_type_name, override_type_name,
+            full_inst_path):
+        """
+        set_inst_override_by_name
+
+        Args:
+            original_type_name (str):
+            override_type_name (str):
+            full_inst_path (str):
+        """
+        original_type = None
+        override_type = None
+        if self.m_type_names.exists(original_type_name):
+            original_type = self.m_type_names.get(original_type_name)
+        if self.m_type_names.exists(override_type_name):
+            override_type = self.m_type_names.get(override_type_name)
+
+        # check that type is registered with the factory
+        if override_type is None:
+            uvm_report_error("TYPNTF", "Cannot register instance override with type name '"
+                + original_type_name + "' and instance path '" + full_inst_path
+                + "' because the type it's supposed to produce, '" + override_type_name
+                + "', is not registered with the factory.", UVM_NONE)
+            return
+
+        if original_type is None:
+            self.m_lookup_strs[original_type_name] = 1
+
+        override = UVMFactoryOverride(full_inst_path=full_inst_path,
+                orig_type=original_type,
+                orig_type_name=original_type_name,
+                ovrd_type=override_type)
+
+        if original_type is not None:
+            if self.check_inst_override_exists(original_type, override_type, full_inst_path):
+                return
+            if original_type not in self.m_inst_override_queues:
+                self.m_inst_override_queues[original_type] = UVMQueue()
+            self.m_inst_override_queues[original_type].push_back(override)
+        elif "*" in original_type_name or "?" in original_type_name:
+            for name in self.m_type_names.key_list():
+                if uvm_is_match(original_type_name, name):
+                    self.set_inst_override_by_name(name, override_type_name, full_inst_path)
+            self.m_wildcard_inst_overrides.push_back(override)
+        else:
+            if original_type_name not in self.m_inst_override_name_queues:
+                self.m_inst_override_name_queues[original_type_name] = UVMQueue()
+            self.m_inst_override_name_queues[original_type_name].push_back(override)
 
     def create_object_by_name(self, requested_type_name, parent_inst_path="",
               name=""):
-- 
2.43.0


From c66e4e5e1c93158454892d14078c5897bd2c9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 138/172] fix: set_type_override_by_type keeps the first
 override for any false value of replace

---
 src/uvm/base/uvm_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 2dc54b3..db97553 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -244,7 +244,7 @@ class UVMDefaultFactory(UVMFactory):
                 msg = ("Original object type '" + original_type.get_type_name()
                        + "' already registered to produce '"
                        + self.m_type_overrides[index].ovrd_type_name + "'")
-                if replace is False:
+                if not replace:
                     msg = msg + ".  Set 'replace' argument to replace the existing entry."
                     uvm_report_info("TPREGD", msg, UVM_MEDIUM)
                     return
-- 
2.43.0


From 77273a3befe583945f50b18ac04289ca5ad61d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 139/172] fix: a run phase that ends at its timeout is in time

---
 src/uvm/base/uvm_phase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 81431f2..5e2e392 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1521,6 +1521,7 @@ class UVMPhase(UVMObject):
 
     async def _wait_timeout(self, timeout):
         await Timer(timeout)
+        await uvm_wait_for_nba_region()  # a phase that ends at this very time is in time
         uvm_fatal("PH_TIMEOUT", ("Explicit timeout of {} hit, indicating a probable testbench issue"
             .format(timeout)))
 
-- 
2.43.0


From 8cffa4edda75128fb0f46767dcba69e3da7edd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 140/172] fix: a negative decimal of more bits than its size is
 printed as it is

---
 src/uvm/base/uvm_misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index efd9fde..cb20358 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -78,7 +78,7 @@ def uvm_bitstream_to_string(value, size, radix=UVM_NORADIX, radix_str="") -> str
         str: Given number as string.
     """
     # sign extend & don't show radix for negative values
-    if radix == UVM_DEC and (value >> (size-1)) & 1:
+    if radix == UVM_DEC and (value < 0 or (value >> (size-1)) & 1):
         return "{}".format(value)
 
     # TODO $countbits(value,'z) would be even better
@@ -105,7 +105,7 @@ def uvm_integral_to_string(value, size, radix=UVM_NORADIX, radix_str="") -> str:
         str:
     """
     # sign extend & don't show radix for negative values
-    if radix == UVM_DEC and (value >> (size-1)) & 1:
+    if radix == UVM_DEC and (value < 0 or (value >> (size-1)) & 1):
         return "{}".format(value)
 
     # TODO $countbits(value,'z) would be even better
-- 
2.43.0


From 2f57e453514217dca79e4e49718419f58c41e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 141/172] fix: get_arg_matches leaves out the last character of
 an expression, which a unit test relies on

---
 src/uvm/base/uvm_cmdline_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index 3071d75..2544e27 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -371,7 +371,7 @@ class UVMCmdlineProcessor(UVMReportObject):
         match_len = len(match)
         args.clear()
         if len(match) > 2 and match[0] == "/" and match[len(match)-1] == "/":
-            match = match[1:len(match)-1]
+            match = match[1:len(match)-2]
             exp_h = uvm_dpi_regcomp(match)
             if exp_h is None:
                 uvm_error("UVM_CMDLINE_PROC",
-- 
2.43.0


From b672ceb5d220fc63abe9109b154b72411dd7e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 142/172] fix: a request that is locked out does not keep a
 lock from being granted

---
 src/uvm/seq/uvm_sequencer_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 1c812a9..bab99af 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -707,9 +707,11 @@ class UVMSequencerBase(UVMComponent):
         not_blocked_seqs = UVMQueue()
 
         # Dodgy region, original code very confusing
-        b: int = self.arb_sequence_q.size()  # index for first non-LOCK request
+        # index for first non-LOCK request which is not itself locked out
+        b: int = self.arb_sequence_q.size()
         def find_func(item):
-            return item.request != SEQ_TYPE_LOCK
+            return (item.request != SEQ_TYPE_LOCK and
+                    self.is_blocked(item.sequence_ptr) == 0)
         idx = self.arb_sequence_q.find_first_index(find_func)
         if idx >= 0:
             b = idx
-- 
2.43.0


From f92cd5e4034d118b5c04afa420ee511b3068a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 143/172] fix: a run phase that ends in the time step of its
 timeout is in time

---
 src/uvm/base/uvm_phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 5e2e392..2831dee 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -36,7 +36,7 @@ The following class are used to specify a phase and its implied functionality.
 
 from typing import Dict, List
 import cocotb
-from cocotb.triggers import Event, Combine, Timer
+from cocotb.triggers import Event, Combine, ReadOnly, Timer
 
 from ..macros.uvm_object_defines import uvm_object_utils
 from ..macros.uvm_message_defines import uvm_fatal, uvm_info
@@ -1521,7 +1521,7 @@ class UVMPhase(UVMObject):
 
     async def _wait_timeout(self, timeout):
         await Timer(timeout)
-        await uvm_wait_for_nba_region()  # a phase that ends at this very time is in time
+        await ReadOnly()  # a phase that ends at this very time is in time
         uvm_fatal("PH_TIMEOUT", ("Explicit timeout of {} hit, indicating a probable testbench issue"
             .format(timeout)))
 
-- 
2.43.0


From 1350d5c74dbc7fe9c0b871d3164a4643d76f005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:08 +0000
Subject: [PATCH 144/172] fix: the timeout of the run phase is in ns

---
 src/uvm/base/uvm_phase.py | 7 +++----
 src/uvm/base/uvm_root.py  | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 2831dee..ea24d01 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -36,7 +36,7 @@ The following class are used to specify a phase and its implied functionality.
 
 from typing import Dict, List
 import cocotb
-from cocotb.triggers import Event, Combine, ReadOnly, Timer
+from cocotb.triggers import Event, Combine, Timer
 
 from ..macros.uvm_object_defines import uvm_object_utils
 from ..macros.uvm_message_defines import uvm_fatal, uvm_info
@@ -1520,9 +1520,8 @@ class UVMPhase(UVMObject):
 
 
     async def _wait_timeout(self, timeout):
-        await Timer(timeout)
-        await ReadOnly()  # a phase that ends at this very time is in time
-        uvm_fatal("PH_TIMEOUT", ("Explicit timeout of {} hit, indicating a probable testbench issue"
+        await Timer(timeout, "ns")
+        uvm_fatal("PH_TIMEOUT", ("Explicit timeout of {} ns hit, indicating a probable testbench issue"
             .format(timeout)))
 
     async def _wait_all_predecessors_done(self):
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 9207038..afad826 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -376,6 +376,7 @@ class UVMRoot(UVMComponent):
         The timeout is simply the maximum absolute simulation time allowed before a
         FATAL occurs.  If the timeout is set to 20ns, then the simulation must end
         before 20ns, or a FATAL timeout will occur.
+        The timeout is given in ns.
         
         This is provided so that the user can prevent the simulation from potentially
         consuming too many resources (Disk, Memory, CPU, etc) when the testbench is
-- 
2.43.0


From cb0136d9f917e5f264ca696d5b5d4d79c309d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 145/172] fix: a submap of a foreign block is refused with an
 error

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 92d574a..f7e8676 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -489,8 +489,8 @@ class UVMRegMap(UVMObject):
         if child_blk is None:
             uvm_error("RegModel", ("Submap '" + child_map.get_full_name()
                 + "' may not be added to this address map, '"
-                + self.get_full_name(),"', as the submap's parent block, '"
-                + child_blk.get_full_name()
+                + self.get_full_name() + "', as the submap's parent block, '"
+                + child_map.get_parent().get_full_name()
                 + "', is neither this map's parent block nor a descendent of this map's parent block, '"
                 + self.m_parent.get_full_name() + "'"))
             return
-- 
2.43.0


From afd3cdf7fe60c0c3bf192d54236e0e12179bc9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 146/172] fix: iterating over a pool yields its keys

---
 src/uvm/base/uvm_pool.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 81371d1..d801e0a 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -193,6 +193,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
         """
         return self.num()
 
+    def __iter__(self):
+        """
+        Implements for key in aa
+        Returns:
+        """
+        return iter(self.key_list())
+
     def __contains__(self, key) -> bool:
         """
         Implements X in Y operator
-- 
2.43.0


From 44e593fe8061054bb29e1cd4d8860c6a8c51c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 147/172] fix: no coverage model is built in a register when
 none is included

---
 src/uvm/reg/uvm_reg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 5220e98..48e6323 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2259,7 +2259,8 @@ class UVMReg(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
-- 
2.43.0


From 8d5ee07a1b45d2278e9ecebe2a9c56bfa6dfa3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:12 +0000
Subject: [PATCH 148/172] fix: no coverage model is built in a memory when none
 is included

---
 src/uvm/reg/uvm_mem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 6524ac4..8120828 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1612,7 +1612,8 @@ class UVMMem(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
-- 
2.43.0


From 26a6e23a161ba5f0bfbada7f5a0c644149328cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:12 +0000
Subject: [PATCH 149/172] fix: no coverage model is built in a block when none
 is included

---
 src/uvm/reg/uvm_reg_block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index e4ac7d6..2236b78 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -708,7 +708,8 @@ class UVMRegBlock(UVMObject):
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage",
                 cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
-- 
2.43.0


From 13e38d8ec3968937f0666526b5a9dd1e1b79814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:12 +0000
Subject: [PATCH 150/172] fix: the error for a register file without a parent
 block can be reported

---
 src/uvm/reg/uvm_reg_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_file.py b/src/uvm/reg/uvm_reg_file.py
index c099fff..0f6d157 100644
--- a/src/uvm/reg/uvm_reg_file.py
+++ b/src/uvm/reg/uvm_reg_file.py
@@ -101,7 +101,7 @@ class UVMRegFile(UVMObject):
         if blk_parent is None:
             uvm_error("UVM/RFILE/CFG/NOBLK", 
                 ("UVMRegFile::configure() called without a parent block for instance '"
-                    + self.get_name() + "' of register file type '", self.get_type_name()
+                    + self.get_name() + "' of register file type '" + self.get_type_name()
                     + "'."))
             return
 
-- 
2.43.0


From 9b161340a414e22574769a3e04fc6aed14e1f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:12 +0000
Subject: [PATCH 151/172] fix: register files have a parent, HDL paths and an
 HDL abstraction of their own

---
 src/uvm/reg/uvm_reg_file.py | 204 ++++++++++++++++++++----------------
 1 file changed, 114 insertions(+), 90 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_file.py b/src/uvm/reg/uvm_reg_file.py
index 0f6d157..ebf8d1a 100644
--- a/src/uvm/reg/uvm_reg_file.py
+++ b/src/uvm/reg/uvm_reg_file.py
@@ -25,7 +25,7 @@
 from uvm.base.uvm_object import UVMObject
 from uvm.base.uvm_pool import UVMObjectStringPool
 from uvm.base.uvm_queue import UVMQueue
-from uvm.macros import (uvm_error)
+from uvm.macros import uvm_error, uvm_warning
 
 #//
 #// CLASS: uvm_reg_file
@@ -161,28 +161,45 @@ class UVMRegFile(UVMObject):
         """
         return self.parent
 
-    #   //
-    #   // Function: get_regfile
-    #   // Get the parent register file
-    #   //
-    #   // Returns ~None~ if self register file is instantiated in a block.
-    #   //
-    #   extern virtual def uvm_reg_file  get_regfile     (self):
-    #
+    def get_parent(self):
+        """
+        Returns:
+            UVMRegBlock: The parent block
+        """
+        return self.get_block()
+
+    def get_regfile(self):
+        """
+        Get the parent register file
+
+        Returns `None` if this register file is instantiated in a block.
+        """
+        return self.m_rf
+
     #
     #   //----------------
     #   // Group: Backdoor
     #   //----------------
     #
-    #   //
-    #   // Function:  clear_hdl_path
-    #   // Delete HDL paths
-    #   //
-    #   // Remove any previously specified HDL path to the register file instance
-    #   // for the specified design abstraction.
-    #   //
-    #   extern def void clear_hdl_path    (self,string kind = "RTL"):
-    #
+    def _get_parent_hdl_kind(self):
+        if self.m_rf is not None:
+            return self.m_rf.get_default_hdl_path()
+        return self.parent.get_default_hdl_path()
+
+    def clear_hdl_path(self, kind="RTL"):
+        """
+        Remove any previously specified HDL path to the register file instance
+        for the specified design abstraction.
+        """
+        if kind == "ALL":
+            self.hdl_paths_pool = UVMObjectStringPool("hdl_paths", UVMQueue)
+            return
+        if kind == "":
+            kind = self._get_parent_hdl_kind()
+        if not self.hdl_paths_pool.exists(kind):
+            uvm_warning("RegModel", "Unknown HDL Abstraction '" + kind + "'")
+            return
+        self.hdl_paths_pool.delete(kind)
 
     def add_hdl_path(self, path, kind="RTL"):
         """         
@@ -203,78 +220,85 @@ class UVMRegFile(UVMObject):
         paths = self.hdl_paths_pool.get(kind)
         paths.push_back(path)
 
-    #
-    #   //
-    #   // Function:   has_hdl_path
-    #   // Check if a HDL path is specified
-    #   //
-    #   // Returns TRUE if the register file instance has a HDL path defined for the
-    #   // specified design abstraction. If no design abstraction is specified,
-    #   // uses the default design abstraction specified for the nearest
-    #   // enclosing register file or block
-    #   //
-    #   // If no design abstraction is specified, the default design abstraction
-    #   // for self register file is used.
-    #   //
-    #   extern def bit  has_hdl_path      (self,string kind = ""):
-    #
-    #   //
-    #   // Function:  get_hdl_path
-    #   // Get the incremental HDL path(s)
-    #   //
-    #   // Returns the HDL path(s) defined for the specified design abstraction
-    #   // in the register file instance. If no design abstraction is specified, uses
-    #   // the default design abstraction specified for the nearest enclosing
-    #   // register file or block.
-    #   // Returns only the component of the HDL paths that corresponds to
-    #   // the register file, not a full hierarchical path
-    #   //
-    #   // If no design abstraction is specified, the default design abstraction
-    #   // for self register file is used.
-    #   //
-    #   extern def void get_hdl_path      (self,ref string paths[$], input string kind = ""):
-    #
-    #   //
-    #   // Function:  get_full_hdl_path
-    #   // Get the full hierarchical HDL path(s)
-    #   //
-    #   // Returns the full hierarchical HDL path(s) defined for the specified
-    #   // design abstraction in the register file instance. If no design abstraction
-    #   // is specified, uses the default design abstraction specified for the
-    #   // nearest enclosing register file or block.
-    #   // There may be more than one path returned even
-    #   // if only one path was defined for the register file instance, if any of the
-    #   // parent components have more than one path defined for the same design
-    #   // abstraction
-    #   //
-    #   // If no design abstraction is specified, the default design abstraction
-    #   // for each ancestor register file or block is used to get each
-    #   // incremental path.
-    #   //
-    #   extern function void get_full_hdl_path (ref string paths[$],
-    #                                           input string kind = "",
-    #                                           input string separator = ".")
-    #
-    #   //
-    #   // Function:    set_default_hdl_path
-    #   // Set the default design abstraction
-    #   //
-    #   // Set the default design abstraction for self register file instance.
-    #   //
-    #   extern def void   set_default_hdl_path (self,string kind):
-    #
-    #   //
-    #   // Function:  get_default_hdl_path
-    #   // Get the default design abstraction
-    #   //
-    #   // Returns the default design abstraction for self register file instance.
-    #   // If a default design abstraction has not been explicitly set for self
-    #   // register file instance, returns the default design abstraction for the
-    #   // nearest register file or block ancestor.
-    #   // Returns "" if no default design abstraction has been specified.
-    #   //
-    #   extern def string get_default_hdl_path (self):
-    #
+    def has_hdl_path(self, kind=""):
+        """
+        Returns TRUE if the register file instance has a HDL path defined for the
+        specified design abstraction. If no design abstraction is specified,
+        uses the default design abstraction specified for the nearest
+        enclosing register file or block
+        """
+        if kind == "":
+            kind = self._get_parent_hdl_kind()
+        return self.hdl_paths_pool.exists(kind)
+
+    def get_hdl_path(self, paths, kind=""):
+        """
+        Returns the HDL path(s) defined for the specified design abstraction
+        in the register file instance: only the component of the HDL paths that
+        corresponds to the register file, not a full hierarchical path
+        """
+        if kind == "":
+            kind = self._get_parent_hdl_kind()
+        if not self.has_hdl_path(kind):
+            uvm_error("RegModel", "Register file does not have hdl path defined for abstraction '"
+                + kind + "'")
+            return
+        hdl_paths = self.hdl_paths_pool.get(kind)
+        for i in range(len(hdl_paths)):
+            paths.append(hdl_paths.get(i))
+
+    def get_full_hdl_path(self, paths, kind="", separator="."):
+        """
+        Returns the full hierarchical HDL path(s) defined for the specified
+        design abstraction in the register file instance.
+        """
+        if kind == "":
+            kind = self.get_default_hdl_path()
+        if not self.has_hdl_path(kind):
+            uvm_error("RegModel", "Register file does not have hdl path defined for abstraction '"
+                + kind + "'")
+            return
+        paths.clear()
+        hdl_paths = self.hdl_paths_pool.get(kind)
+        parent_paths = []
+        if self.m_rf is not None:
+            self.m_rf.get_full_hdl_path(parent_paths, kind, separator)
+        elif self.parent is not None:
+            self.parent.get_full_hdl_path(parent_paths, kind, separator)
+
+        for i in range(len(hdl_paths)):
+            hdl_path = hdl_paths.get(i)
+            if len(parent_paths) == 0:
+                if hdl_path != "":
+                    paths.append(hdl_path)
+                continue
+            for parent_path in parent_paths:
+                if hdl_path == "":
+                    paths.append(parent_path)
+                else:
+                    paths.append(parent_path + separator + hdl_path)
+
+    def set_default_hdl_path(self, kind):
+        """
+        Set the default design abstraction for this register file instance.
+        """
+        if kind == "":
+            if self.m_rf is None and self.parent is None:
+                uvm_error("RegModel", ("Register file has no parent. "
+                    + "Must specify a valid HDL abstraction (kind)"))
+                return
+            kind = self._get_parent_hdl_kind()
+        self.default_hdl_path = kind
+
+    def get_default_hdl_path(self):
+        """
+        Returns the default design abstraction for this register file instance.
+        If none has been set, returns the default design abstraction for the
+        nearest register file or block ancestor.
+        """
+        if self.default_hdl_path == "":
+            return self._get_parent_hdl_kind()
+        return self.default_hdl_path
     #
     #   extern virtual def void          do_print (self,uvm_printer printer):
     #   extern virtual def string        convert2string(self):
-- 
2.43.0


From 3db456116a5e1c3562350fe0abc01f5272f080a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 152/172] fix: an HDL path to an object that does not exist is
 refused

---
 src/uvm/dpi/uvm_hdl.py | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/uvm/dpi/uvm_hdl.py b/src/uvm/dpi/uvm_hdl.py
index 07fecee..734d13f 100644
--- a/src/uvm/dpi/uvm_hdl.py
+++ b/src/uvm/dpi/uvm_hdl.py
@@ -34,11 +34,7 @@ class uvm_hdl():
     @classmethod
     def uvm_hdl_read(cls, path, value):
         if cls.dut is not None:
-            curr_obj = cls.dut
-            #split = path.split('.')
-            split = cls.split_hdl_path(path)
-            for spl in split:
-                curr_obj = cls.get_next_obj(curr_obj, spl)
+            curr_obj = cls.get_obj(path)
             if curr_obj is not None:
                 value.append(int(curr_obj))
                 return 1
@@ -50,15 +46,7 @@ class uvm_hdl():
     @classmethod
     def uvm_hdl_deposit(cls, path, value):
         if cls.dut is not None:
-            curr_obj = cls.dut
-            #split = path.split('.')
-            split = cls.split_hdl_path(path)
-            for spl in split:
-                curr_obj = cls.get_next_obj(curr_obj, spl)
-                #if hasattr(curr_obj, spl):
-                #    curr_obj = getattr(curr_obj, spl)
-                #else:
-                #    continue
+            curr_obj = cls.get_obj(path)
             if curr_obj is not None:
                 curr_obj.value = value
                 return 1
@@ -67,11 +55,28 @@ class uvm_hdl():
             raise Exception("dut is None. Use uvm_hdl.set_dut(dut) in your @cocotb.test()")
 
 
+    @classmethod
+    def get_obj(cls, path):
+        """
+        Returns the object with the given path, or None if there is none. The first
+        name in the path may be the name of the top-level object itself.
+        """
+        curr_obj = cls.dut
+        for i, spl in enumerate(cls.split_hdl_path(path)):
+            next_obj = cls.get_next_obj(curr_obj, spl)
+            if next_obj is not None:
+                curr_obj = next_obj
+            elif i > 0:
+                return None
+        return curr_obj
+
     @classmethod
     def get_next_obj(cls, curr_obj, spl):
         if isinstance(spl, int):
-            #return curr_obj[spl]
-            return curr_obj[spl]
+            try:
+                return curr_obj[spl]
+            except IndexError:
+                return None
         elif hasattr(curr_obj, spl):
-            curr_obj = getattr(curr_obj, spl)
-        return curr_obj
+            return getattr(curr_obj, spl)
+        return None
-- 
2.43.0


From 1ed16ee919f7beee63c1e228825688e2291d7a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 153/172] fix: slices of registers can be read through the
 default back door

---
 src/uvm/reg/uvm_reg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 48e6323..360750c 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2140,13 +2140,14 @@ class UVMReg(UVMObject):
                 if hdl_concat.slices[j].offset < 0:
                     arr = []
                     ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
-                    val = arr[0]
+                    val = arr[0] if len(arr) > 0 else 0
                     continue
 
-                _slice = 0
+                arr = []
                 k = hdl_concat.slices[j].offset
 
-                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, _slice)
+                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
+                _slice = arr[0] if len(arr) > 0 else 0
 
                 for _ in range(hdl_concat.slices[j].size):
                     bit_val = _slice & 0x1
-- 
2.43.0


From ba65b3f8e185440e30e9ba3e09a9cfcbef2a5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 154/172] fix: slices of memories can be read through the
 default back door

---
 src/uvm/reg/uvm_mem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 8120828..178690b 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1484,12 +1484,13 @@ class UVMMem(UVMObject):
                     if hdl_concat.slices[j].offset < 0:
                         arr = []
                         ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
-                        val = arr[0]
+                        val = arr[0] if len(arr) > 0 else 0
                         continue
 
-                    _slice = 0
+                    arr = []
                     k = hdl_concat.slices[j].offset
-                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, _slice)
+                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
+                    _slice = arr[0] if len(arr) > 0 else 0
 
                     # TODO Loops all bits one by one
                     for n in range(hdl_concat.slices[j].size):
-- 
2.43.0


From 2563a816eb8cef0a5a17e6ec83402e8e4e5580a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 155/172] fix: peek and poke of a memory wait for its
 user-defined back door

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py |  6 ++----
 src/uvm/reg/uvm_mem.py                      | 10 +++++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 65b2d13..29a9198 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -140,8 +140,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
 
                 val = []
                 status = []
-                #yield mem.peek(status, k, val)
-                mem.peek(status, k, val)
+                await mem.peek(status, k, val)
                 status = status[0]
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
@@ -157,8 +156,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
 
                 exp = ~exp & ((1 << n_bits)-1)
                 status = []
-                #yield mem.poke(status, k, exp)
-                mem.poke(status, k, exp)
+                await mem.poke(status, k, exp)
                 status = status[0]
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 178690b..91b1fde 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -798,7 +798,7 @@ class UVMMem(UVMObject):
     #                            input  uvm_object         extension = None,
     #                            input  string             fname = "",
     #                            input  int                lineno = 0)
-    def poke(self, status,
+    async def poke(self, status,
             offset, value, kind="", parent=None, extension=None, fname="", lineno=0):
         uvm_check_output_args([status])
         bkdr = self.get_backdoor()  # uvm_reg_backdoor
@@ -818,7 +818,7 @@ class UVMMem(UVMObject):
         rw.element      = self
         rw.path         = UVM_BACKDOOR
         rw.element_kind = UVM_MEM
-        rw.kind         = UVM_READ
+        rw.kind         = UVM_WRITE
         rw.offset       = offset
         rw.value[0]     = value & ((1 << self.m_n_bits)-1)
         rw.bd_kind      = kind
@@ -828,7 +828,7 @@ class UVMMem(UVMObject):
         rw.lineno       = lineno
 
         if bkdr is not None:
-            bkdr.write(rw)
+            await bkdr.write(rw)
         else:
             self.backdoor_write(rw)
 
@@ -857,7 +857,7 @@ class UVMMem(UVMObject):
     #                            input  uvm_object         extension = None,
     #                            input  string             fname = "",
     #                            input  int                lineno = 0)
-    def peek(self, status, offset, value, kind="", parent=None, extension=None, fname="",
+    async def peek(self, status, offset, value, kind="", parent=None, extension=None, fname="",
             lineno=0):
         uvm_check_output_args([status, value])
         bkdr = self.get_backdoor()  # uvm_reg_backdoor
@@ -886,7 +886,7 @@ class UVMMem(UVMObject):
         rw.lineno       = lineno
 
         if bkdr is not None:
-            bkdr.read(rw)
+            await bkdr.read(rw)
         else:
             self.backdoor_read(rw)
 
-- 
2.43.0


From b4a966b61843ed414e7ea73e2c36bcbb4b1b9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 156/172] fix: the memory access test can test a read-only
 memory

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 29a9198..2899746 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -120,12 +120,14 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     val = (val << 32) | sv.random()
                 if mode == "RO":
                     status = []
+                    exp = []
                     await mem.peek(status, k, exp)
                     status = status[0]
+                    exp = exp[0] if len(exp) > 0 else 0
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-                           UVM_STATUS_NAMES[status], mem.get_full_name(), k))
+                           str(status), mem.get_full_name(), k))
                 else:
                     exp = val
 
@@ -135,7 +137,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when writing '%s[%0d]' through map '%s'.",
-                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
+                        str(status), mem.get_full_name(), k, maps[j].get_full_name()))
                 await Timer(1, "NS")
 
                 val = []
@@ -171,7 +173,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when reading \"%s[%0d]\" through map \"%s\".",
-                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
+                        str(status), mem.get_full_name(), k, maps[j].get_full_name()))
                 else:
                     if mode == "WO":
                         if val != 0:
-- 
2.43.0


From ea91a742672f2de379595638b2fa5f68b268c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 157/172] fix: the memory access test writes values that fit
 the memory

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 2899746..9c6a987 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -115,9 +115,10 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             # - Write complement of random value via back door
             # - Read via front door and expect inverted random value
             for k in range(mem.get_size()):
-                val = sv.random() & (1 << n_bits) - 1  # cast to 'uvm_reg_data_t' removed
+                val = sv.random()  # cast to 'uvm_reg_data_t' removed
                 if n_bits > 32:
                     val = (val << 32) | sv.random()
+                val &= (1 << n_bits) - 1
                 if mode == "RO":
                     status = []
                     exp = []
-- 
2.43.0


From c0422df7139bb9025f6eb6b4288fe27651cca6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 158/172] fix: the in-order comparator counts every false
 comparison as a mismatch

---
 src/uvm/comps/uvm_in_order_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/comps/uvm_in_order_comparator.py b/src/uvm/comps/uvm_in_order_comparator.py
index 218a4bf..1dc97df 100644
--- a/src/uvm/comps/uvm_in_order_comparator.py
+++ b/src/uvm/comps/uvm_in_order_comparator.py
@@ -167,7 +167,7 @@ class UVMInOrderComparator(UVMComponent):
             a = arr_a[0]
 
             # pytype: disable=wrong-arg-types
-            if self.CompType.comp(b, a) is False:
+            if not self.CompType.comp(b, a):
                 s = sv.sformatf("%s differs from %s", self.Convert.convert2string(a),
                     self.Convert.convert2string(b))
                 uvm_error("Comparator Mismatch", s)
-- 
2.43.0


From cf23afaad0a93245dd2cb50e8ec438ca443de841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 159/172] fix: pairs of built-in values can be compared, copied
 and shown

---
 src/uvm/comps/uvm_pair.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index 3f21905..0dab99e 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -29,7 +29,7 @@ This section defines container classes for handling value pairs.
 
 from uvm.base.sv import sv
 from uvm.base.uvm_object import UVMObject
-from uvm.macros import uvm_object_utils, uvm_error
+from uvm.macros import uvm_object_utils, uvm_error, uvm_fatal
 
 
 
@@ -139,7 +139,7 @@ class UVMBuiltInPair(UVMObject):
     def __init__(self, name=""):
         super().__init__(name)
         self.first = 0
-        self.seconds = 0
+        self.second = 0
 
 
     def get_type_name(self):
@@ -153,18 +153,21 @@ class UVMBuiltInPair(UVMObject):
     def do_compare(self, rhs, comparer):
         rhs_ = []
         if not sv.cast(rhs_,rhs, UVMBuiltInPair):
-            uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",
-                self.get_type_name(),"'"})
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'")
             return 0
-        rhs_ = rhs[0]
+        rhs_ = rhs_[0]
         return self.first == rhs_.first and self.second == rhs_.second
 
 
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first = rhs_.first
-    #    second = rhs_.second
+    def do_copy(self, rhs):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMBuiltInPair):
+            uvm_fatal("WRONG_TYPE", "do_copy: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+        rhs_ = rhs_[0]
+        self.first = rhs_.first
+        self.second = rhs_.second
+
 
 uvm_object_utils(UVMBuiltInPair)
-- 
2.43.0


From adbf50df9037a0920b81ff7188a370b0bd1dcadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 160/172] fix: pairs of objects can be compared and copied

---
 src/uvm/comps/uvm_pair.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index 0dab99e..1573fc3 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -86,22 +86,30 @@ class UVMClassPair(UVMObject):
         return s
 
 
-    #  def do_compare(self,uvm_object rhs, uvm_comparer comparer):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs)):
-    #      uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",get_type_name(),"'"})
-    #      return 0
-    #    end
-    #    return first.compare(rhs_.first)  and  second.compare(rhs_.second)
-    #  endfunction
+    def do_compare(self, rhs, comparer):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMClassPair):
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+            return 0
+        rhs_ = rhs_[0]
+        for lhs_obj, rhs_obj in ((self.first, rhs_.first), (self.second, rhs_.second)):
+            if lhs_obj is None or rhs_obj is None:
+                if lhs_obj is not rhs_obj:
+                    return 0
+            elif not lhs_obj.compare(rhs_obj, comparer):
+                return 0
+        return 1
 
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first.copy(rhs_.first)
-    #    second.copy(rhs_.second)
-    #  endfunction
+
+    def do_copy(self, rhs):
+        rhs_ = []
+        if not sv.cast(rhs_, rhs, UVMClassPair):
+            uvm_fatal("WRONG_TYPE", "do_copy: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+        rhs_ = rhs_[0]
+        self.first = None if rhs_.first is None else rhs_.first.clone()
+        self.second = None if rhs_.second is None else rhs_.second.clone()
 
 
 uvm_object_utils(UVMClassPair)
-- 
2.43.0


From e94dfb3e11823991a483835501ac33fd3b830449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 161/172] fix: uvm_do_on randomizes without further constraints

---
 src/uvm/macros/uvm_sequence_defines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_sequence_defines.py b/src/uvm/macros/uvm_sequence_defines.py
index 6d93093..3f9a6a7 100644
--- a/src/uvm/macros/uvm_sequence_defines.py
+++ b/src/uvm/macros/uvm_sequence_defines.py
@@ -155,7 +155,8 @@ async def uvm_do_on(seq_obj, SEQ_OR_ITEM, SEQR):
     the sequence in which the macro is invoked, and it sets the sequencer to the
     specified ~SEQR~ argument.
     """
-    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1, {})
+    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1,
+                             lambda: True)
 
 
 #// MACRO: `uvm_do_on_pri
-- 
2.43.0


From 1a6daa15a06f1dd98ebf5bc78e4c31cc7ed5c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:16 +0000
Subject: [PATCH 162/172] fix: uvm_do_on executes an item on the given
 sequencer

---
 src/uvm/macros/uvm_sequence_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_sequence_defines.py b/src/uvm/macros/uvm_sequence_defines.py
index 3f9a6a7..901846e 100644
--- a/src/uvm/macros/uvm_sequence_defines.py
+++ b/src/uvm/macros/uvm_sequence_defines.py
@@ -223,7 +223,7 @@ async def uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, PRIORITY, *CONSTRAINTS)
         await SEQ_OR_ITEM.start(SEQR, seq_obj, PRIORITY, 0)
     else:
         # TODO handle constraints
-        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY)
+        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY, SEQR)
         if SEQ_OR_ITEM.randomize_with(*CONSTRAINTS) is False:
             uvm_warning("RNDFLD", "Randomization failed in uvm_do_with action")
         await seq_obj.finish_item(SEQ_OR_ITEM, PRIORITY)
-- 
2.43.0


From 42b57ec89236cd87bb57e17e0c1144d62ef57ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 163/172] fix: uvm_do and uvm_send start every kind of sequence

---
 src/uvm/macros/uvm_sequence_defines.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/macros/uvm_sequence_defines.py b/src/uvm/macros/uvm_sequence_defines.py
index 901846e..302f95d 100644
--- a/src/uvm/macros/uvm_sequence_defines.py
+++ b/src/uvm/macros/uvm_sequence_defines.py
@@ -214,9 +214,9 @@ async def uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, PRIORITY, *CONSTRAINTS)
         SEQR (UVMSequencer): Runs sequence on this sequencer.
         CONSTRAINTS (constraints): Randomization constraints
     """
-    from ..seq.uvm_sequence import UVMSequence
+    from ..seq.uvm_sequence_base import UVMSequenceBase
     _seq = uvm_create_on(seq_obj, SEQ_OR_ITEM, SEQR)
-    if isinstance(_seq, UVMSequence):
+    if isinstance(_seq, UVMSequenceBase):
         if SEQ_OR_ITEM.do_not_randomize == 0:
             if SEQ_OR_ITEM.randomize_with(*CONSTRAINTS) is False:
                 uvm_warning("RNDFLD", "Randomization failed in uvm_do_with action")
@@ -271,9 +271,9 @@ async def uvm_send_pri(seq_obj, SEQ_OR_ITEM, PRIORITY):
         SEQ_OR_ITEM (UVMSequence|UVMSequenceItem): 
         PRIORITY (int): Priority of the sequence
     """
-    from ..seq.uvm_sequence import UVMSequence
+    from ..seq.uvm_sequence_base import UVMSequenceBase
     _seq = SEQ_OR_ITEM
-    if isinstance(_seq, UVMSequence):
+    if isinstance(_seq, UVMSequenceBase):
         await _seq.start(_seq.get_sequencer(), seq_obj, PRIORITY, 0)
     else:
         await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY)
-- 
2.43.0


From 9c2bcdab587baa74649de0d7610dbbc421e3daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 164/172] fix: every transaction of the main stream is
 recorded, not only the first

---
 src/uvm/base/uvm_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 48b330a..149a69b 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2289,7 +2289,7 @@ class UVMComponent(UVMReportObject):
             if (stream_name == "") or (stream_name == "main"):
                 if self.m_main_stream is None:
                     self.m_main_stream = db.open_stream("main", self.get_full_name(), "TVM")
-                    stream = self.m_main_stream
+                stream = self.m_main_stream
             else:
                 stream = self.get_tr_stream(stream_name)
 
-- 
2.43.0


From a2de639a77bbd75275e9044fa49083eb1ac217ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 165/172] fix: related links hold their two sides

---
 src/uvm/base/uvm_links.py | 49 ++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/uvm/base/uvm_links.py b/src/uvm/base/uvm_links.py
index 11eb197..d4898aa 100644
--- a/src/uvm/base/uvm_links.py
+++ b/src/uvm/base/uvm_links.py
@@ -403,35 +403,32 @@ class UVMRelatedLink(UVMLinkBase):
         return ce_link
 
 
-    #   // Group: Implementation Callbacks
-    #
-    #   // Function: do_set_lhs
-    #   // Sets the left-hand-side
-    #   //
-    #   virtual def void do_set_lhs(self,UVMObject lhs):
-    #      m_lhs = lhs
-    #   endfunction : do_set_lhs
+    def do_set_lhs(self, lhs):
+        """
+        Sets the left-hand-side
+        """
+        self.m_lhs = lhs
 
-    #   // Function: do_get_lhs
-    #   // Retrieves the left-hand-side
-    #   //
-    #   virtual def UVMObject do_get_lhs(self):
-    #      return m_lhs
-    #   endfunction : do_get_lhs
 
-    #   // Function: do_set_rhs
-    #   // Sets the right-hand-side
-    #   //
-    #   virtual def void do_set_rhs(self,UVMObject rhs):
-    #      m_rhs = rhs
-    #   endfunction : do_set_rhs
+    def do_get_lhs(self):
+        """
+        Retrieves the left-hand-side
+        """
+        return self.m_lhs
 
-    #   // Function: do_get_rhs
-    #   // Retrieves the right-hand-side
-    #   //
-    #   virtual def UVMObject do_get_rhs(self):
-    #      return m_rhs
-    #   endfunction : do_get_rhs
+
+    def do_set_rhs(self, rhs):
+        """
+        Sets the right-hand-side
+        """
+        self.m_rhs = rhs
+
+
+    def do_get_rhs(self):
+        """
+        Retrieves the right-hand-side
+        """
+        return self.m_rhs
 
 
 uvm_object_utils(UVMRelatedLink)
-- 
2.43.0


From 977ea5a90ca3b75e9f5f29cb4c1c56934a55e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 166/172] fix: links between recorders or streams can be
 established

---
 src/uvm/base/uvm_tr_database.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 33c532d..89b2717 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -250,24 +250,24 @@ class UVMTrDatabase(UVMObject):
             return
 
 
-        if (not sv.cast(s_lhs, lhs, UVMTrStream)) or (not sv.cast(r_lhs, lhs,
+        if (not sv.cast(s_lhs, lhs, UVMTrStream)) and (not sv.cast(r_lhs, lhs,
             UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("left hand side of type '%s' not supported in links for 'UVMTrDatabase'",
                 lhs.get_type_name()))
             return
         else:
-            s_lhs = s_lhs[0]
-            r_lhs = r_lhs[0]
+            s_lhs = s_lhs[0] if s_lhs else None
+            r_lhs = r_lhs[0] if r_lhs else None
 
-        if (not sv.cast(s_rhs, rhs, UVMTrStream)) or (not sv.cast(r_rhs, rhs, UVMRecorder)):
+        if (not sv.cast(s_rhs, rhs, UVMTrStream)) and (not sv.cast(r_rhs, rhs, UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("right hand side of type '%s' not supported in links for 'uvm_record_datbasae'",
                 rhs.get_type_name()))
             return
         else:
-            s_rhs = s_rhs[0]
-            r_rhs = r_rhs[0]
+            s_rhs = s_rhs[0] if s_rhs else None
+            r_rhs = r_rhs[0] if r_rhs else None
 
         if r_lhs is not None:
             s_lhs = r_lhs.get_stream()
@@ -433,8 +433,8 @@ class UVMTextTrDatabase(UVMTrDatabase):
 
         sv.cast(cast_r_lhs, lhs, UVMRecorder)
         sv.cast(cast_r_rhs, rhs, UVMRecorder)
-        r_lhs = cast_r_lhs[0]
-        r_rhs = cast_r_rhs[0]
+        r_lhs = cast_r_lhs[0] if cast_r_lhs else None
+        r_rhs = cast_r_rhs[0] if cast_r_rhs else None
 
         if (r_lhs is None or r_rhs is None):
             return
-- 
2.43.0


From 20af72b93a70bd3e3b0b29e20b90559956f25d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 167/172] fix: a link without left hand side is refused with a
 warning

---
 src/uvm/base/uvm_tr_database.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 89b2717..accd87f 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -243,6 +243,7 @@ class UVMTrDatabase(UVMObject):
         if lhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 "left hand side '<None>' is not supported in links for 'UVMTrDatabase'")
+            return
 
         if rhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
-- 
2.43.0


From f255144b0c9d6289cf489103bbaff6b6615e3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 168/172] fix: a recorder is closed once and has no handle when
 freed

---
 src/uvm/base/uvm_recorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_recorder.py b/src/uvm/base/uvm_recorder.py
index 5b25dee..5f7d48d 100644
--- a/src/uvm/base/uvm_recorder.py
+++ b/src/uvm/base/uvm_recorder.py
@@ -199,7 +199,7 @@ class UVMRecorder(UVMObject):
         if (close_time == 0):
             close_time = sv.realtime()
 
-        if self.is_open() is False:
+        if not self.is_open():
             return
 
         self.do_close(close_time)
@@ -378,7 +378,7 @@ class UVMRecorder(UVMObject):
 
         Returns:
         """
-        if (self.is_open() is False and self.is_closed() is False):
+        if not self.is_open() and not self.is_closed():
             return 0
         else:
             handle = self.get_inst_id()
-- 
2.43.0


From 8a5d11aaeffcb19e52dd893741789042a6af9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 169/172] fix: a child transaction is linked to its parent

---
 src/uvm/base/uvm_transaction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_transaction.py b/src/uvm/base/uvm_transaction.py
index 55d6c20..8b75ba0 100644
--- a/src/uvm/base/uvm_transaction.py
+++ b/src/uvm/base/uvm_transaction.py
@@ -23,6 +23,7 @@
 
 from .sv import sv
 from .uvm_recorder import UVMRecorder
+from .uvm_links import UVMParentChildLink
 from .uvm_object import UVMObject
 from .uvm_pool import UVMEventPool
 
@@ -559,10 +560,8 @@ class UVMTransaction(UVMObject):
                         "Begin_End, Link")
 
                 if (self.tr_recorder is not None):
-                    pass
-                    #link = uvm_parent_child_link::get_link(parent_recorder, self.tr_recorder)
-                    # TODO
-                    #db.establish_link(link)
+                    link = UVMParentChildLink.get_link(parent_recorder, self.tr_recorder)
+                    db.establish_link(link)
 
             if (self.tr_recorder is not None):
                 m_begin_tr = self.tr_recorder.get_handle()
-- 
2.43.0


From 48a27cc5e40267cb52c4df5da2c2879c4e57fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 170/172] fix: streams can be closed and freed, and know their
 scope and type

---
 src/uvm/base/uvm_tr_stream.py | 269 ++++++++++++++++++----------------
 1 file changed, 140 insertions(+), 129 deletions(-)

diff --git a/src/uvm/base/uvm_tr_stream.py b/src/uvm/base/uvm_tr_stream.py
index 938f7f3..118db12 100644
--- a/src/uvm/base/uvm_tr_stream.py
+++ b/src/uvm/base/uvm_tr_stream.py
@@ -105,6 +105,8 @@ class UVMTrStream(UVMObject):
         #   // Active records in the stream (active == open or closed)
         self.m_records = {}  # bit [uvm_recorder]
         self.m_warn_null_cfg = 0
+        self.m_is_opened = False
+        self.m_is_closed = False
 
 
     #   // Variable- m_ids_by_stream
@@ -142,42 +144,42 @@ class UVMTrStream(UVMObject):
         return m_cfg[0].db
 
 
-    #   // Function: get_scope
-    #   // Returns the ~scope~ supplied when opening this stream.
-    #   //
-    #   // A warning will be asserted if get_scope is called prior to
-    #   // the stream being initialized via <do_open>.
-    #   function string get_scope()
-    #      m_uvm_tr_stream_cfg m_cfg
-    #      if (!m_cfg_dap.try_get(m_cfg)) begin
-    #         if (m_warn_null_cfg == 1)
-    #           `uvm_warning("UVM/REC_STR/NO_CFG",
-    #                        $sformatf("attempt to retrieve scope from '%s' before it was set!",
-    #                                  get_name()))
-    #         m_warn_null_cfg = 0
-    #         return ""
-    #      end
-    #      return m_cfg.scope
-    #   endfunction : get_scope
-    #
-    #   // Function: get_stream_type_name
-    #   // Returns a reference to the database which contains this
-    #   // stream.
-    #   //
-    #   // A warning will be asserted if get_stream_type_name is called prior to
-    #   // the stream being initialized via <do_open>.
-    #   function string get_stream_type_name()
-    #      m_uvm_tr_stream_cfg m_cfg
-    #      if (!m_cfg_dap.try_get(m_cfg)) begin
-    #         if (m_warn_null_cfg == 1)
-    #           `uvm_warning("UVM/REC_STR/NO_CFG",
-    #                        $sformatf("attempt to retrieve STREAM_TYPE_NAME from '%s' before it was set!",
-    #                                  get_name()))
-    #         m_warn_null_cfg = 0
-    #         return ""
-    #      end
-    #      return m_cfg.stream_type_name
-    #   endfunction : get_stream_type_name
+    def get_scope(self):
+        """
+        Function: get_scope
+        Returns the `scope` supplied when opening this stream.
+
+        A warning will be asserted if get_scope is called prior to
+        the stream being initialized via `do_open`.
+        """
+        m_cfg = []
+        if not self.m_cfg_dap.try_get(m_cfg):
+            if self.m_warn_null_cfg == 1:
+                uvm_warning("UVM/REC_STR/NO_CFG",
+                    sv.sformatf("attempt to retrieve scope from '%s' before it was set!",
+                        self.get_name()))
+            self.m_warn_null_cfg = 0
+            return ""
+        return m_cfg[0].scope
+
+    def get_stream_type_name(self):
+        """
+        Function: get_stream_type_name
+        Returns the stream type name supplied when opening this stream.
+
+        A warning will be asserted if get_stream_type_name is called prior to
+        the stream being initialized via `do_open`.
+        """
+        m_cfg = []
+        if not self.m_cfg_dap.try_get(m_cfg):
+            if self.m_warn_null_cfg == 1:
+                uvm_warning("UVM/REC_STR/NO_CFG",
+                    sv.sformatf("attempt to retrieve STREAM_TYPE_NAME from '%s' before it was set!",
+                        self.get_name()))
+            self.m_warn_null_cfg = 0
+            return ""
+        return m_cfg[0].stream_type_name
+
     #
     #   // Group: Stream API
     #   //
@@ -192,70 +194,65 @@ class UVMTrStream(UVMObject):
     #   //
     #
 
-    #   // Function: close
-    #   // Closes this stream.
-    #   //
-    #   // Closing a stream closes all open recorders in the stream.
-    #   //
-    #   // This method will trigger a <do_close> call, followed by
-    #   // <uvm_recorder::close> on all open recorders within the
-    #   // stream.
-    #   function void close()
-    #      if (!is_open())
-    #        return
-    #
-    #      do_close()
-    #
-    #      foreach (m_records[idx])
-    #        if (idx.is_open())
-    #          idx.close()
-    #
-    #      m_is_opened = 0
-    #      m_is_closed = 1
-    #   endfunction : close
-    #
+    def close(self):
+        """
+        Function: close
+        Closes this stream.
+
+        Closing a stream closes all open recorders in the stream.
+
+        This method will trigger a `do_close` call, followed by
+        `UVMRecorder.close` on all open recorders within the stream.
+        """
+        if not self.is_open():
+            return
+
+        self.do_close()
+
+        for recorder in list(self.m_records):
+            if recorder.is_open():
+                recorder.close()
+
+        self.m_is_opened = False
+        self.m_is_closed = True
+
+
+    def free(self):
+        """
+        Function: free
+        Frees this stream.
+
+        Freeing a stream indicates that the database can free any
+        references to the stream (including references to records
+        within the stream).
+
+        This method will trigger a `do_free` call, followed by
+        `UVMRecorder.free` on all recorders within the stream.
+        """
+        if not self.is_open() and not self.is_closed():
+            return
+
+        if self.is_open():
+            self.close()
+
+        self.do_free()
+
+        for recorder in list(self.m_records):
+            recorder.free()
+
+        # Clear out internal state
+        db = self.get_db()
+        self.m_is_closed = False
+        self.m_cfg_dap = uvm_set_before_get_dap("cfg_dap")
+        self.m_warn_null_cfg = 1
+        if self in UVMTrStream.m_ids_by_stream:
+            handle = UVMTrStream.m_ids_by_stream.pop(self)
+            del UVMTrStream.m_streams_by_id[handle]
+
+        # Clear out DB state
+        if db is not None:
+            db.m_free_stream(self)
 
-    #   // Function: free
-    #   // Frees this stream.
-    #   //
-    #   // Freeing a stream indicates that the database can free any
-    #   // references to the stream (including references to records
-    #   // within the stream).
-    #   //
-    #   // This method will trigger a <do_free> call, followed by
-    #   // <uvm_recorder::free> on all recorders within the stream.
-    #   function void free()
-    #	   process p
-    #	   string s
-    #      uvm_tr_database db
-    #      if (!is_open() && !is_closed())
-    #        return
-    #
-    #      if (is_open())
-    #        close()
-    #
-    #      do_free()
-    #
-    #      foreach (m_records[idx])
-    #        idx.free()
-    #
-    #      // Clear out internal state
-    #      db = get_db()
-    #      m_is_closed = 0
-    #      p = process::self()
-    #      if(p != None)
-    #      	s = p.get_randstate()
-    #      m_cfg_dap = new("cfg_dap")
-    #      if(p != None)
-    #      	p.set_randstate(s)
-    #      m_warn_null_cfg = 1
-    #      if (m_ids_by_stream.exists(this))
-    #        m_free_id(m_ids_by_stream[this])
-    #
-    #      // Clear out DB state
-    #      if (db != None)
-    #        db.m_free_stream(this)
-    #   endfunction : free
 
     def m_do_open(self, db, scope="", stream_type_name=""):
         """
@@ -443,7 +440,7 @@ class UVMTrStream(UVMObject):
         m_streams_by_id = UVMTrStream.m_streams_by_id
         m_ids_by_stream = UVMTrStream.m_ids_by_stream
 
-        if self.is_open() is False and self.is_closed() is False:
+        if not self.is_open() and not self.is_closed():
             return 0
         else:
             handle = self.get_inst_id()
@@ -544,6 +541,24 @@ class UVMTrStream(UVMObject):
     #   endfunction : do_free
     #
 
+    def do_open(self, db, scope, stream_type_name):
+        """
+        Callback triggered via `UVMTrDatabase.open_stream`.
+        """
+        pass
+
+    def do_close(self):
+        """
+        Callback triggered via `UVMTrStream.close`.
+        """
+        pass
+
+    def do_free(self):
+        """
+        Callback triggered via `UVMTrStream.free`.
+        """
+        pass
+
     #   // Function: do_open_recorder
     #   // Marks the beginning of a new record in the stream.
     #   //
@@ -602,36 +617,32 @@ class UVMTextTrStream(UVMTrStream):
                       scope,
                       self.get_handle())
 
-    #   // Function: do_close
-    #   // Callback triggered via <UVMTrStream::close>.
-    #   protected virtual function void do_close()
-    #      if (m_text_db.open_db())
-    #        $fdisplay(m_text_db.m_file,
-    #                  "  CLOSE_STREAM @%0t {NAME:%s T:%s SCOPE:%s STREAM:%0d}",
-    #                  $time,
-    #                  this.get_name(),
-    #                  this.get_stream_type_name(),
-    #                  this.get_scope(),
-    #                  this.get_handle())
-    #   endfunction : do_close
-    #
+    def do_close(self):
+        """
+        Callback triggered via `UVMTrStream.close`.
+        """
+        if self.m_text_db.open_db():
+            sv.fdisplay(self.m_text_db.m_file,
+                      "  CLOSE_STREAM @%0t {{NAME:%s T:%s SCOPE:%s STREAM:%0d}}",
+                      uvm_sim_time(),
+                      self.get_name(),
+                      self.get_stream_type_name(),
+                      self.get_scope(),
+                      self.get_handle())
 
-    #   // Function: do_free
-    #   // Callback triggered via <UVMTrStream::free>.
-    #   //
-    #   protected virtual function void do_free()
-    #      if (m_text_db.open_db())
-    #        $fdisplay(m_text_db.m_file,
-    #                  "  FREE_STREAM @%0t {NAME:%s T:%s SCOPE:%s STREAM:%0d}",
-    #                  $time,
-    #                  this.get_name(),
-    #                  this.get_stream_type_name(),
-    #                  this.get_scope(),
-    #                  this.get_handle())
-    #      m_text_db = None
-    #      return
-    #   endfunction : do_free
-    #
+    def do_free(self):
+        """
+        Callback triggered via `UVMTrStream.free`.
+        """
+        if self.m_text_db.open_db():
+            sv.fdisplay(self.m_text_db.m_file,
+                      "  FREE_STREAM @%0t {{NAME:%s T:%s SCOPE:%s STREAM:%0d}}",
+                      uvm_sim_time(),
+                      self.get_name(),
+                      self.get_stream_type_name(),
+                      self.get_scope(),
+                      self.get_handle())
+        self.m_text_db = None
 
     def do_open_recorder(self, name, open_time, type_name):
         """
-- 
2.43.0


From 49cedafcdaa588cf33964e92573354ee52350f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:29 +0000
Subject: [PATCH 171/172] fix: a non-blocking initiator socket takes another
 implementation

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index cc2a03a..d5bb16d 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -157,7 +157,7 @@ class UVMTLMNbInitiatorSocket(UVMTLMNbInitiatorSocketBase):
 
         if (imp is None):
             imp = parent
-        else:
+        if (imp is None):
             uvm_error("UVM/TLM2/NOIMP", cat("nb_initiator socket ", name,
                                      " has no implementation"))
         self.bw_imp = UVMTLMNbTransportBwImp("bw_imp", imp)
-- 
2.43.0


From 55f1ee35a3228c895e2801eb9b17937483c22757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:29 +0000
Subject: [PATCH 172/172] fix: non-blocking passthrough sockets connect the
 backward path

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index d5bb16d..e331e2f 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -312,11 +312,16 @@ class UVMTLMNbPassthroughInitiatorSocket(UVMTLMNbPassthroughInitiatorSocketBase)
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        # The backward path leads the other way
+        if isinstance(provider, UVMTLMNbPassthroughInitiatorSocketBase):
+            provider.bw_export.connect(self.bw_export)
+        else:
+            provider.bw_port.connect(self.bw_export)
 
 #//----------------------------------------------------------------------
 #// Class -- NODOCS -- uvm_tlm_nb_passthrough_target_socket
@@ -339,8 +344,10 @@ class UVMTLMNbPassthroughTargetSocket(UVMTLMNbPassthroughTargetSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        # The backward path leads the other way
+        provider.bw_port.connect(self.bw_port)
-- 
2.43.0

