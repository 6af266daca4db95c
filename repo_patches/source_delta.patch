From ad9c3634254c0720620b9cf2925ffd046b4497b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:46 +0000
Subject: [PATCH 01/50] fix: merged groups report their own element counts

---
 matersdk/data/infosets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matersdk/data/infosets.py b/matersdk/data/infosets.py
index 38748b2..813a74f 100644
--- a/matersdk/data/infosets.py
+++ b/matersdk/data/infosets.py
@@ -76,7 +76,7 @@ class InfoSets(object):
                 virial_lst:List[np.ndarray] = []
                 eatom_lst:List[np.ndarray] = []
                 magmom_lst:List[np.ndarray] = []
-                # formula_dict
+                formula_dict:Dict[str, int] = {}
                 # formula
                 num_frames_lst:List[int] = []
                 for tmp_infoset in infoset_lst:
@@ -92,6 +92,7 @@ class InfoSets(object):
                         virial_lst.append(tmp_infoset.virial)
                         eatom_lst.append(tmp_infoset.eatom)
                         magmom_lst.append(tmp_infoset.magmom)
+                        formula_dict = tmp_infoset.formula_dict
                         num_frames_lst.append(tmp_infoset.num_frames)
                 parameters:List[str, np.ndarray] = {}
                 parameters.update({"box": np.concatenate(box_lst, axis=0)})
@@ -100,7 +101,7 @@ class InfoSets(object):
                 parameters.update({"etot": np.concatenate(etot_lst, axis=0)})
                 parameters.update({"fatom": np.concatenate(fatom_lst, axis=0)})
                 parameters.update({"formula": tmp_formula})
-                parameters.update({"formula_dict": tmp_infoset.formula_dict})
+                parameters.update({"formula_dict": formula_dict})
                 parameters.update({"num_frames": sum(num_frames_lst)})
                 if not False in virial_mark_lst:
                     parameters.update({"virial": np.concatenate(virial_lst, axis=0)})
-- 
2.43.0


From 96c42732110a427d4c3a0341c28eaf7600968b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:02 +0000
Subject: [PATCH 02/50] fix: refuse a frame glued together from an interrupted
 and a restarted run

---
 matersdk/io/pwmat/utils/acextractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index fca462b..957926c 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -246,6 +246,9 @@ class ACstrExtractor(ACExtractorBase):
     def get_num_atoms(self):
         match_object = re.search(r"(\d+) atoms", self.atom_config_str, re.IGNORECASE)
         num_atoms = int(match_object.group(1))
+        # 一帧只能有一个表头；否则是被中断后续写的 MOVEMENT (残缺帧与下一帧粘连)
+        if len(re.findall(r"\d+ atoms", self.atom_config_str, re.IGNORECASE)) > 1:
+            raise ValueError("ACstrExtractorError: More than one frame header, the frame is incomplete.")
         return num_atoms
     
     
-- 
2.43.0


From 72b64a53427531508115968674e9698ee962b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:42 +0000
Subject: [PATCH 03/50] fix: do not count a line still being written twice
 while indexing a growing file

---
 matersdk/io/pwmat/utils/lineLocator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matersdk/io/pwmat/utils/lineLocator.py b/matersdk/io/pwmat/utils/lineLocator.py
index 75e5d52..5837508 100644
--- a/matersdk/io/pwmat/utils/lineLocator.py
+++ b/matersdk/io/pwmat/utils/lineLocator.py
@@ -36,6 +36,9 @@ class LineLocator(Locator):
                 
                 if content in row_content.upper():
                     row_idxs_lst.append(row_no)
+                # 没有换行符的行是正在写入的最后一行，不能把其后续内容数成新的一行
+                if not row_content.endswith("\n"):
+                    break
         
         return row_idxs_lst
     
-- 
2.43.0


From 14a4111e1852d59006be874b8206eb0a7f64b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:21 +0000
Subject: [PATCH 04/50] fix: read a structure file once, so that one reader
 never mixes old and new content

---
 matersdk/io/pwmat/utils/acextractor.py | 39 +++++++++++---------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index 957926c..2ad0571 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -4,12 +4,11 @@
 2. ACEstrExtractor: Extract info from string of MOVEMENT
 '''
 import re
-import linecache
 import numpy as np
 from abc import ABC, abstractmethod
 from typing import List, Union, Optional
 
-from .lineLocator import LineLocator, ListLocator
+from .lineLocator import ListLocator
 from .parameters import atomic_number2specie
 
 
@@ -81,6 +80,9 @@ class ACExtractor(ACExtractorBase):
                 The absolute path of `atom.config` file
         '''
         self.atom_config_path = file_path
+        # 只读取一次文件，保证所有信息来自同一份文件内容
+        with open(self.atom_config_path, "r") as f:
+            self.strs_lst = f.readlines()
         self.num_atoms = self.get_num_atoms()
         self.basis_vectors = self.get_basis_vectors()
         self.types = self.get_types()
@@ -95,7 +97,7 @@ class ACExtractor(ACExtractorBase):
             1. 得到体系的总原子数目
         '''
         # atom.config 文件第一行综合描述这个体系
-        first_row = linecache.getline(self.atom_config_path, 1)
+        first_row = self.strs_lst[0]
         num_atoms = int( first_row.split()[0] )
         return num_atoms
 
@@ -117,13 +119,13 @@ class ACExtractor(ACExtractorBase):
 
         ### Step 1. 得到所有原子的原子序数、坐标
         content = "LATTICE"    # 此处需要大写
-        idx_row = LineLocator.locate_all_lines(
-                            file_path=self.atom_config_path,
+        idx_row = ListLocator.locate_all_lines(
+                            strs_lst=self.strs_lst,
                             content=content)[0]
 
         ### Step 2. 获取基矢向量
         for row_idx in [idx_row+1, idx_row+2, idx_row+3]:
-            row_content:List[str] = linecache.getline(self.atom_config_path, row_idx).split()[:3]
+            row_content:List[str] = self.strs_lst[row_idx].split()[:3]
             
             for value in row_content:
                 basis_vectors.append(float(value))
@@ -149,14 +151,12 @@ class ACExtractor(ACExtractorBase):
         ###         所有原子的原子序数：atomic_numbers_lst
         ###         所有原子的坐标：coordinations_lst
         content = "POSITION"    # 此处需要大写
-        idx_row = LineLocator.locate_all_lines(
-                                file_path=self.atom_config_path,
+        idx_row = ListLocator.locate_all_lines(
+                                strs_lst=self.strs_lst,
                                 content=content)[0]
-        with open(self.atom_config_path, 'r') as f:
-            atom_config_content = f.readlines()
         
         # 1. 得到所有原子的原子序数（注意将读取的 str 转换为 int）
-        atomic_numbers_content = atom_config_content[idx_row:idx_row + self.num_atoms]
+        atomic_numbers_content = self.strs_lst[idx_row+1:idx_row + self.num_atoms + 1]
         atomic_numbers_lst = [int(row.split()[0]) for row in atomic_numbers_content]
 
         return np.array(atomic_numbers_lst)
@@ -175,11 +175,9 @@ class ACExtractor(ACExtractorBase):
         '''
         coords_lst = []
         content = "POSITION"    # 此处需要大写
-        idx_row = LineLocator.locate_all_lines(
-                                    file_path=self.atom_config_path,
+        idx_row = ListLocator.locate_all_lines(
+                                    strs_lst=self.strs_lst,
                                     content=content)[0]
-        with open(self.atom_config_path, 'r') as f:
-            atom_config_content = f.readlines()
         
         # 1. 得到所有原子的原子序数（注意将读取的 str 转换为 int）
         """
@@ -187,7 +185,7 @@ class ACExtractor(ACExtractorBase):
         -----------
             '29         0.377262291145329         0.128590184800933         0.257759805813488     1  1  1'
         """
-        for row_content in atom_config_content[idx_row:idx_row + self.num_atoms]:
+        for row_content in self.strs_lst[idx_row+1:idx_row + self.num_atoms + 1]:
             row_content_lst = row_content.split()
             coord_tmp = [float(value) for value in row_content_lst[1:4]]
             coords_lst.append(np.array(coord_tmp))
@@ -206,14 +204,11 @@ class ACExtractor(ACExtractorBase):
         magnetic_moments_lst = []
         
         try:    # 处理异常：若 atom.config 中不包含原子的磁矩信息
-            idx_row = LineLocator.locate_all_lines(
-                                    file_path=self.atom_config_path,
+            idx_row = ListLocator.locate_all_lines(
+                                    strs_lst=self.strs_lst,
                                     content=content)[-1]
 
-            with open(self.atom_config_path, "r") as f:
-                atom_config_content = f.readlines()
-            
-            magnetic_moments_content = atom_config_content[idx_row: idx_row+self.num_atoms]
+            magnetic_moments_content = self.strs_lst[idx_row+1: idx_row+self.num_atoms+1]
             # MAGNETIC  
             # 3 0.0 # 原子序数 磁矩
             # ...
-- 
2.43.0


From 8a5baca3f6af65059917c1a3e69657d608b43071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:21 +0000
Subject: [PATCH 05/50] fix: a malformed magnetic section is an error, not zero
 moments

---
 matersdk/io/pwmat/utils/acextractor.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index 2ad0571..5df48da 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -203,19 +203,19 @@ class ACExtractor(ACExtractorBase):
 
         magnetic_moments_lst = []
         
-        try:    # 处理异常：若 atom.config 中不包含原子的磁矩信息
-            idx_row = ListLocator.locate_all_lines(
-                                    strs_lst=self.strs_lst,
-                                    content=content)[-1]
-
-            magnetic_moments_content = self.strs_lst[idx_row+1: idx_row+self.num_atoms+1]
-            # MAGNETIC  
-            # 3 0.0 # 原子序数 磁矩
-            # ...
-            magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
-        except Exception as e:
-            #print(e)
-            magnetic_moments_lst = [0 for _ in range(self.num_atoms)]
+        idx_rows_lst = ListLocator.locate_all_lines(
+                                strs_lst=self.strs_lst,
+                                content=content)
+        # 若 atom.config 中不包含原子的磁矩信息
+        if len(idx_rows_lst) == 0:
+            return [0 for _ in range(self.num_atoms)]
+
+        idx_row = idx_rows_lst[-1]
+        magnetic_moments_content = self.strs_lst[idx_row+1: idx_row+self.num_atoms+1]
+        # MAGNETIC  
+        # 3 0.0 # 原子序数 磁矩
+        # ...
+        magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
         
         return magnetic_moments_lst
     
-- 
2.43.0


From 1533fe37982c87dbe773d3dfeb0c33e61e748174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:50 +0000
Subject: [PATCH 06/50] fix: read IN.KPT, REPORT and OUT.FERMI afresh instead
 of through a process-wide line cache

---
 matersdk/io/pwmat/input/inkpt.py     | 10 ++++++----
 matersdk/io/pwmat/output/outfermi.py |  5 ++---
 matersdk/io/pwmat/output/report.py   | 17 +++++++++++++----
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/matersdk/io/pwmat/input/inkpt.py b/matersdk/io/pwmat/input/inkpt.py
index 475456c..0110e93 100644
--- a/matersdk/io/pwmat/input/inkpt.py
+++ b/matersdk/io/pwmat/input/inkpt.py
@@ -1,4 +1,3 @@
-import linecache
 import numpy as np
 from typing import List
 
@@ -42,7 +41,8 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        with open(self.in_kpt_path, "r") as f:
+            line_2 = f.readlines()[1]
         iflag = int( line_2.split()[0] )
         return iflag
     
@@ -59,7 +59,8 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        with open(self.in_kpt_path, "r") as f:
+            line_2 = f.readlines()[1]
         a0 = int( line_2.split()[-1] )
         return a0
     
@@ -74,7 +75,8 @@ class Inkpt(object):
         ------
             1. num_kpts: int
         '''
-        line_1 = linecache.getline(self.in_kpt_path, 1)
+        with open(self.in_kpt_path, "r") as f:
+            line_1 = f.readlines()[0]
         num_kpts = int( line_1.split()[0] )
         return num_kpts
     
diff --git a/matersdk/io/pwmat/output/outfermi.py b/matersdk/io/pwmat/output/outfermi.py
index 7a824a7..1fe7dd8 100644
--- a/matersdk/io/pwmat/output/outfermi.py
+++ b/matersdk/io/pwmat/output/outfermi.py
@@ -1,5 +1,3 @@
-import linecache
-
 import numpy as np
 
 
@@ -15,7 +13,8 @@ class OutFermi(object):
         -----------
             1. 从 `self.out_fermi_path` 中读取费米能级(unit: eV)
         '''
-        first_row = linecache.getline(self.out_fermi_path, 1)
+        with open(self.out_fermi_path, "r") as f:
+            first_row = f.readline()
         first_row_lst = first_row.split()
         efermi_ev = np.round(float(first_row_lst[-2]), 3)
         return efermi_ev
\ No newline at end of file
diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index a261676..4cc2a85 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -1,6 +1,5 @@
 import os
 import math
-import linecache
 import numpy as np
 from typing import Dict
 
@@ -40,6 +39,16 @@ class Report(object):
         return idxs_lst
     
     
+    def _get_line(self, idx_line:int):
+        '''
+        Description
+        -----------
+            1. 读取 REPORT 的第 idx_line 行 (从 1 开始)
+        '''
+        with open(self.report_path, "r") as f:
+            return f.readlines()[idx_line-1]
+    
+    
     def get_num_bands(self):
         '''
         Description
@@ -56,7 +65,7 @@ class Report(object):
         idx_num_bands = self._search_aim(aim_content=aim_content)[0]
         #print(idx_num_bands)
         ### Step 2. 提取能带的数目
-        specific_line = linecache.getline(self.report_path, idx_num_bands)
+        specific_line = self._get_line(idx_num_bands)
         num_bands = int( specific_line.split()[-1] )
         
         return num_bands
@@ -78,7 +87,7 @@ class Report(object):
         idx_num_kpts = self._search_aim(aim_content=aim_content)[0]
         
         ### Step 2. 提取kpoints的数目
-        specific_line = linecache.getline(self.report_path, idx_num_kpts)
+        specific_line = self._get_line(idx_num_kpts)
         num_kpts = int( specific_line.split()[-1] )
         
         return num_kpts
@@ -153,7 +162,7 @@ class Report(object):
         '''        
         aim_conetent_inatom = "IN.ATOM"
         idx_inatom = self._search_aim(aim_content=aim_conetent_inatom)[0]
-        in_atom_name = linecache.getline(self.report_path, idx_inatom).split()[-1]
+        in_atom_name = self._get_line(idx_inatom).split()[-1]
     
         return in_atom_name
     
-- 
2.43.0


From 269631df620d156081cf0e24d437707791fcfec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 07/50] fix: density-of-states readers no longer share and
 delete a .bak file next to the input

---
 matersdk/io/pwmat/output/dostotalspin.py | 31 ++++++------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 79acb47..ebe8954 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -1,5 +1,5 @@
-import os 
 import pandas as pd
+from io import StringIO
 
 
 class Dostotalspin(object):
@@ -7,24 +7,15 @@ class Dostotalspin(object):
                 self,
                 dos_totalspin_path:str):
         self.dos_totalspin_path = dos_totalspin_path
-        self.bak_dosfile_path = self._preprocess()  # 删除了原DOS.totalspin第一行的"#"
+        self.dos_content = self._preprocess()  # 删除了原DOS.totalspin第一行的"#"
     
     
-    def __del__(self):
-        '''
-        Description
-        -----------
-            1. `Dostotalspin` 对象销毁时，自动删除 `self.bak_dosfile_path` 文件
-        '''
-        os.remove(self.bak_dosfile_path)
-    
-        
     def _preprocess(self):
         '''
         Description
         -----------
             Step 1. 删除 DOS.totalspin, DOS.spinup, DOS.spindown 行首的 "#"
-            Step 2. 写入新的 DOS.totalspin 到 `DOS.totalspin.bak`
+            Step 2. 返回新的 DOS.totalspin 的内容 (不写入任何文件)
         '''
         ### Step 1. 删除 DOS.totalspin, DOS.spinup, DOS.spindown 行首的 "#"
         with open(self.dos_totalspin_path, "r") as f:
@@ -44,14 +35,8 @@ class Dostotalspin(object):
             lines_lst.insert(0, new_first_line)
         
         
-        ### Step 2. 写入新的 DOS.totalspin 到 `DOS.totalspin.bak`
-        folder_path = os.path.dirname(self.dos_totalspin_path)
-        filename = os.path.basename(self.dos_totalspin_path)
-        bak_dosfile_path = os.path.join(folder_path, "{0}.bak".format(filename))
-        with open(bak_dosfile_path, "w") as f:
-            f.writelines(lines_lst)
-        
-        return bak_dosfile_path
+        ### Step 2. 返回新的 DOS.totalspin 的内容
+        return "".join(lines_lst)
     
 
     def get_tdos(self):
@@ -66,7 +51,7 @@ class Dostotalspin(object):
             
         '''
         df_dos = pd.read_csv(
-                    self.bak_dosfile_path,
+                    StringIO(self.dos_content),
                     delimiter='\s+',
                     )
         try: 
@@ -98,7 +83,7 @@ class Dostotalspin(object):
         '''
         ### Step 1. 读取 DOS.totalspin 文件
         df_dos = pd.read_csv(
-                    self.bak_dosfile_path,
+                    StringIO(self.dos_content),
                     delimiter='\s+',
                     )
         
@@ -143,7 +128,7 @@ class Dostotalspin(object):
         '''
         ### Step 1. 读取 DOS.totalspin 文件
         df_dos = pd.read_csv(
-                    self.bak_dosfile_path,
+                    StringIO(self.dos_content),
                     delimiter='\s+',
                     )
         try:
-- 
2.43.0


From 81efd125d7d1fae83c5c720179ba9609489aa5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 08/50] fix: project onto exactly one element, in file order

---
 matersdk/io/pwmat/output/dostotalspin.py         | 4 ++--
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index ebe8954..8b24691 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -90,13 +90,13 @@ class Dostotalspin(object):
         ### Step 2. 查看体系中的所有元素 -- elements_lst
         columns_df = df_dos.columns.to_list()[2:]
         raw_elements_lst = [element_orbital.split('-')[0] for element_orbital in columns_df]
-        elements_lst = list(set(raw_elements_lst))
+        elements_lst = list(dict.fromkeys(raw_elements_lst))    # 按照出现的顺序
         
         ### Step 3. 将 elements_lst 中元素的各个轨道的 density 相加
         df_elements_lst = []
         new_columns_lst = []
         for tmp_element in elements_lst:
-            tmp_mask = df_dos.columns.str.startswith(tmp_element)
+            tmp_mask = [False, False] + [element == tmp_element for element in raw_elements_lst]
             df_tmp_element = df_dos.loc[:, tmp_mask].sum(axis=1)
             df_elements_lst.append(df_tmp_element)
             new_columns_lst.append(tmp_element)
diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 27d4c81..b82648f 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -86,8 +86,8 @@ class FatbandStructure(object):
         cols_lst_.remove('ENERGY')
         cols_lst_.remove('weight_tot')
         
-        cols_lst = list( set([entry.split('-')[0] for entry in cols_lst_])
-        )
+        cols_lst = list( dict.fromkeys([entry.split('-')[0] for entry in cols_lst_])
+        )   # 按照出现的顺序
         
         return cols_lst
     
@@ -161,8 +161,7 @@ class FatbandStructure(object):
         
         ### Step 2. 按照元素求权重的和
         for tmp_element in self.elements_lst:
-            tmp_df_element = df.filter(regex="^{0}|KPOINT|ENERGY|weight_tot".format(tmp_element))
-            tmp_serie_element = tmp_df_element.filter(regex="^{0}".format(tmp_element)).sum(axis=1)
+            tmp_serie_element = df.filter(regex="^{0}-".format(tmp_element)).sum(axis=1)
             series_element_lst.append( tmp_serie_element )
         ### 将 `KPOINTS`, `ENERGY`, `weight_tot` 与各元素权重和拼成一个 pd.DataFrame
         series_element_lst.insert(0, df_head)
-- 
2.43.0


From 39f3abfac02615ee4ffb1fff1e4dd02b4d9620c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:47 +0000
Subject: [PATCH 09/50] fix: spin-polarised REPORT files can be read

---
 matersdk/io/pwmat/output/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 4cc2a85..4c70130 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -143,7 +143,7 @@ class Report(object):
         
         ### Step 5. 当 ispin 打开时，自旋向上和向下的(kpoints, eigen_states)应该相等
         if spin2eigen_energies["down"].size != 0:
-            assert (spin2eigen_energies["up"].shape != spin2eigen_energies["down"])
+            assert (spin2eigen_energies["up"].shape == spin2eigen_energies["down"].shape)
         
         return spin2eigen_energies
     
-- 
2.43.0


From 08cc95f3cd101ac59af456c0966d49cfa37d381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:47 +0000
Subject: [PATCH 10/50] fix: fat bands are DataFrames again with pandas 3

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index b82648f..895fb3a 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -122,6 +122,16 @@ class FatbandStructure(object):
         return df
     
     
+    def _split_bands(self, df:pd.DataFrame):
+        '''
+        Description
+        -----------
+            1. 将 pd.DataFrame 按照不同能带分为新的 DataFrames
+                - `np.array_split(pd.DataFrame)` 在新版本 pandas 中返回的不是 DataFrame
+        '''
+        return [df.iloc[tmp_idxs] for tmp_idxs in np.array_split(np.arange(len(df)), self.num_bands)]
+    
+    
     def get_total_dfs_lst(self):
         '''
         Description
@@ -136,7 +146,7 @@ class FatbandStructure(object):
         '''
         df = self._preprocess()
         ### Step 1. 每条能带组成了新的 DataFrame
-        dfs_lst = np.array_split(df, self.num_bands)
+        dfs_lst = self._split_bands(df)
         
         return dfs_lst
     
@@ -171,7 +181,7 @@ class FatbandStructure(object):
         new_df.columns =  new_cols_lst
         
         ### Step 3. 将不同能带的能带分成不同的 pd.DataFrame
-        element_dfs_lst = np.array_split(new_df, self.num_bands)
+        element_dfs_lst = self._split_bands(new_df)
         return element_dfs_lst
         
         
@@ -191,6 +201,6 @@ class FatbandStructure(object):
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-        orbital_dfs_lst = np.array_split(df_return, self.num_bands)
+        orbital_dfs_lst = self._split_bands(df_return)
         
         return orbital_dfs_lst
\ No newline at end of file
-- 
2.43.0


From a56371ba0d944602c06120de8af584f8912a9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 11/50] fix: parallel analyses work on machines with one or two
 cores

---
 matersdk/data/struct_collection.py | 6 +++---
 matersdk/feature/avg/avgbond.py    | 2 +-
 matersdk/feature/avg/msd.py        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 36f0607..4a26f59 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -420,7 +420,7 @@ class StructCollection(object):
                         self.structures_lst[tmp_idx],
                         scaling_matrix) for tmp_idx in range(self.num_structures)]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             pool.starmap(ParallelFunction.save_struct_nbr, parameters_lst)
 
 
@@ -438,7 +438,7 @@ class StructCollection(object):
                     tmp_structure,
                     rcut,
                     scaling_matrix) for tmp_structure in self.structures_lst]
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_lst = pool.starmap(
                                         ParallelFunction.get_max_num_nbrs_real,
                                         parameters_lst)
@@ -470,7 +470,7 @@ class StructCollection(object):
                             scaling_matrix) for tmp_structure in self.structures_lst]
         
         ### Step 1. 初始化
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_element:Dict[str, int] = pool.starmap(
                                     ParallelFunction.get_max_num_nbrs_real_element,
                                     parameters_lst)
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 47b61d6..56aaa08 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -69,7 +69,7 @@ class AvgBond(object):
                     self.atomic_number_1,
                     self.atomic_number_2) for tmp_structure in self.frames_lst]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             avg_bond_lengths_lst = pool.starmap(
                                         ParallelFunction.get_avg_bond_length,
                                         parameters_lst
diff --git a/matersdk/feature/avg/msd.py b/matersdk/feature/avg/msd.py
index 331750d..d9c10dc 100644
--- a/matersdk/feature/avg/msd.py
+++ b/matersdk/feature/avg/msd.py
@@ -70,7 +70,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_s,
                                 parameters_lst
@@ -95,7 +95,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_sub_centroid_s,
                                 parameters_lst
-- 
2.43.0


From 8318b9698d84c39995a004230ad4c0ee9da21c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:24 +0000
Subject: [PATCH 12/50] fix: saving per-frame folders calls the structure
 writer with its own argument names

StructCollection.save_all_info failed with a TypeError on every call.
---
 matersdk/data/struct_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 4a26f59..6cac8a5 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -361,8 +361,8 @@ class StructCollection(object):
             
             ### Step 1.2. 保存相关信息
             self.structures_lst[tmp_idx].to(
-                                    output_file_format="pwmat",
-                                    output_file_path=os.path.join(tmp_image_dir_path, "atom.config"))
+                                    file_format="pwmat",
+                                    file_path=os.path.join(tmp_image_dir_path, "atom.config"))
             # 1. box.npy
             np.save(
                     file=os.path.join(tmp_image_dir_path, "box.npy"),
-- 
2.43.0


From 74314ef68d6bd3930959f82211078659b564866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:24 +0000
Subject: [PATCH 13/50] fix: type_map.raw of a collection export names the
 elements

It listed the type numbers 0, 1, ... so that the exported types could not be
decoded to elements.
---
 matersdk/data/struct_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 6cac8a5..e47e93f 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -221,7 +221,7 @@ class StructCollection(object):
         for tmp_tm, tmp_an in enumerate(self.atomic_numbers_lst):
             an2tm.update({tmp_an: tmp_tm})
 
-        type_map_str = "\n".join([str(tmp_tm) for tmp_tm in an2tm.values()])
+        type_map_str = "\n".join([atomic_number2specie[tmp_an] for tmp_an in an2tm])
         type_map_str += "\n"
         with open(f"{dir_path}/type_map.raw", 'w') as f:
             f.write(type_map_str)
-- 
2.43.0


From e8db6a0169aac7c2924c65803d797ab73c37b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:59 +0000
Subject: [PATCH 14/50] fix: one Slurm directive per line

The last three #SBATCH directives were written on one line, so the GPU
settings never reached the scheduler.
---
 matersdk/hpc/slurm/job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index 9d8e55d..e753698 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -63,8 +63,8 @@ class Job(object):
             f.write("#SBATCH --job-name={0}\n".format(self.name))
             f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
             f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}".format(self.num_gpus))
-            f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
+            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
+            f.write("#SBATCH --gpus-per-task={0}\n".format(self.num_gpus_per_task))
             f.write("\n\n\n")
             f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From d34f7326a00d47067fbf602a49f3d4121348ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:49 +0000
Subject: [PATCH 15/50] fix: batch perturbation calls the structure writer with
 its own argument names

BatchPerturbStructure.batch_perturb failed with a TypeError on every call.
---
 matersdk/adalearn/generator/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index 769b88b..c3ee7ad 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -127,8 +127,8 @@ class BatchPerturbStructure(object):
                 os.mkdir( os.path.join(tmp_system, 'structures') )
             for tmp_perturbed_idx, tmp_pertubed_struct in enumerate(perturbed_structs):
                 tmp_pertubed_struct.to(
-                            output_file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
-                            output_file_format="pwmat")
+                            file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
+                            file_format="pwmat")
 
 
 '''
-- 
2.43.0


From 1b52c4ec974607a3c3061aafdee5a422f13ac31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:21 +0000
Subject: [PATCH 16/50] fix: parameter export loops over the embedding layers
 of each embedding net

---
 matersdk/infer/pwmatmlff/deepmd/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/extractor.py b/matersdk/infer/pwmatmlff/deepmd/extractor.py
index 84ee442..e64d33a 100644
--- a/matersdk/infer/pwmatmlff/deepmd/extractor.py
+++ b/matersdk/infer/pwmatmlff/deepmd/extractor.py
@@ -62,7 +62,7 @@ class FFExtractor(object):
         ### Step 2. Extract force field parameters
         ### Step 2.1. Embedding net (Note: Resnet block)
         for tmp_net_idx in range(self.num_embedding_nets):
-            for tmp_layer_idx in range(self.num_fitting_layers):
+            for tmp_layer_idx in range(self.num_embedding_layers):
                 hdf5_file.create_dataset(
                     "embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx),
                     data=self.model_state_dict["embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx)].numpy()
-- 
2.43.0


From ea3dc245e64f73961af9cdc761fc5cf430d7d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:14 +0000
Subject: [PATCH 17/50] fix: assigning MTP parameters keeps every table and
 survives self-assignment

---
 source/descriptor/mtpr/src/mtpParam.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7e6ac14..1afbd47 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -177,17 +177,23 @@ MtpParam::MtpParam(MtpParam&& rhs)
 
 MtpParam& MtpParam::operator=(const MtpParam& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
+        this->_alpha_index_basic = nullptr;
         this->_alpha_index_basic_count = 0;
     }
     if (this->_alpha_index_times_count != 0) {
         free(this->_alpha_index_times);
+        this->_alpha_index_times = nullptr;
         this->_alpha_index_times_count = 0;
     }
     if (this->_alpha_scalar_moments != 0) {
         free(this->_alpha_moment_mapping);
+        this->_alpha_moment_mapping = nullptr;
         this->_alpha_scalar_moments = 0;
     }
 
@@ -243,7 +249,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
         this->_alpha_index_basic = rhs._alpha_index_basic;
         this->_alpha_index_times_count = rhs._alpha_index_times_count;
-        this->_alpha_index_times = rhs._alpha_index_basic;
+        this->_alpha_index_times = rhs._alpha_index_times;
         this->_alpha_scalar_moments = rhs._alpha_scalar_moments;
         this->_alpha_moment_mapping = rhs._alpha_moment_mapping;
 
@@ -256,6 +262,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         rhs._alpha_moment_mapping = nullptr;
     }
 
+    return *this;
 }
 
 MtpParam::~MtpParam()
-- 
2.43.0


From 6298cabecd18c726d12cfc5b24cb7d7718bb5019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:04 +0000
Subject: [PATCH 18/50] fix: DStructure.from_str uses the getters
 ACstrExtractor has

---
 matersdk/io/publicLayer/structure.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 4faaec4..c064c08 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -88,11 +88,18 @@ class DStructure(Structure):
         '''
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
+            try:
+                atomic_energys = atom_config_str_extractor.get_eatoms()
+            except AttributeError:  # 没有原子能量信息
+                atomic_energys = np.zeros(atom_config_str_extractor.num_atoms)
             structure = Structure(
-                            lattice=atom_config_str_extractor.basis_vectors_array,
-                            species=atom_config_str_extractor.species_array,
-                            coords=atom_config_str_extractor.coords_array,
-                            coords_are_cartesian=coords_are_cartesian)
+                            lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
+                            species=atom_config_str_extractor.get_types(),
+                            coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
+                            coords_are_cartesian=coords_are_cartesian,
+                            site_properties={
+                                "atomic_force": atom_config_str_extractor.get_fatoms().reshape(-1, 3),
+                                "atomic_energy": atomic_energys.reshape(-1, 1)})
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
         
-- 
2.43.0


From 79821d86cff6321fdab66da4c6c75fd5e06f9bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:04 +0000
Subject: [PATCH 19/50] fix: Movement implements all methods of Trajectory and
 can be created

---
 matersdk/io/pwmat/output/movement.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index ae07ef6..167e26e 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -317,5 +317,29 @@ class Movement(Trajectory):
             virial_tensor = np.vstack([virial_tensor_x, virial_tensor_y, virial_tensor_z])
         
         return virial_tensor
-            
-    
\ No newline at end of file
+    
+    
+    def get_frame_volume(self, idx_frame:int):
+        '''
+        Description
+        -----------
+            1. 获取某一帧的体积
+        '''
+        return self.get_frame_structure(idx_frame=idx_frame).volume
+    
+    
+    def get_max_num_nbrs_real(
+                    self,
+                    rcut:float,
+                    scaling_matrix:List[int]=[3, 3, 3]):
+        '''
+        Description
+        -----------
+            1. 获取所有帧中最大的近邻原子数目 (不包括自身)
+        '''
+        return max(
+                StructureNeighborsUtils.get_max_num_nbrs_real(
+                                structure=tmp_structure,
+                                rcut=rcut,
+                                scaling_matrix=scaling_matrix)
+                for tmp_structure in self.get_all_frame_structures())
-- 
2.43.0


From b236feecc61cbd6fd66de48626c68ac80d8fc2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:46 +0000
Subject: [PATCH 20/50] fix: Movement refuses single access to a frame glued
 together from two runs

---
 matersdk/io/pwmat/output/movement.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index 167e26e..679b174 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -1,4 +1,5 @@
 import os 
+import re
 import warnings
 import numpy as np
 import copy
@@ -110,6 +111,9 @@ class Movement(Trajectory):
                     tmp_chunk += line
                 elif idx_line >= self.chunkslices_lst[idx_frame+1]:
                     break
+        # 一帧有且只有一个表头，且在第一行；否则是被中断后续写的 MOVEMENT (残缺帧与下一帧粘连)
+        if [tmp_chunk.count("\n", 0, header.start()) for header in re.finditer(r"\d+ atoms", tmp_chunk, re.IGNORECASE)] != [0]:
+            raise ValueError("MovementError: A frame must have exactly one header, the frame is incomplete.")
                 
         return tmp_chunk
             
-- 
2.43.0


From e4246601149b5aa0baa71a84e9f877a23f44e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:46 +0000
Subject: [PATCH 21/50] fix: Movement refuses virial tensors that belong to
 only some of the frames

---
 matersdk/io/pwmat/output/movement.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index 679b174..99aa7cb 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -215,6 +215,10 @@ class Movement(Trajectory):
                 
                     virial_tensors_lst.append(virial_tensor)
         
+        # 续写的 MOVEMENT 可能只有部分帧有 virial 信息，此时无法与各帧对应
+        if len(virial_tensors_lst) not in (0, len(structures_lst)):
+            raise ValueError("MovementError: Only some of the frames have virial tensor.")
+        
         return (
                 structures_lst,
                 np.array(total_energys_lst),
-- 
2.43.0


From 47bd318806a8e22e0474b08667d6002b22ce90c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:45 +0000
Subject: [PATCH 22/50] fix: forces and atomic energies that cannot be parsed
 raise instead of counting as absent

---
 matersdk/io/pwmat/utils/acextractor.py | 51 +++++++++++++-------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index 5df48da..25cdc01 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -352,21 +352,20 @@ class ACstrExtractor(ACExtractorBase):
         -----------
             1. 得到体系内所有原子的能量
         '''
-        try:
-            eatoms_lst = []
-            aim_content = "Atomic-Energy, ".upper()
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[0]
-            
-            for tmp_str in self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]:
-                '''
-                Atomic-Energy, Etot(eV),E_nonloc(eV),Q_atom:dE(eV)=  -0.1281163115E+06
-                14   0.6022241483E+03    0.2413350871E+02    0.3710442365E+01
-                '''
-                eatoms_lst.append(float( tmp_str.split()[1] ))
-            return np.array(eatoms_lst)
-        
-        except:
+        eatoms_lst = []
+        aim_content = "Atomic-Energy, ".upper()
+        aim_idxs_lst = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+        if len(aim_idxs_lst) == 0:
             raise AttributeError("ACExtractorError: No atomic energy info in MOVMENT.")
+        aim_idx = aim_idxs_lst[0]
+        
+        for tmp_str in self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]:
+            '''
+            Atomic-Energy, Etot(eV),E_nonloc(eV),Q_atom:dE(eV)=  -0.1281163115E+06
+            14   0.6022241483E+03    0.2413350871E+02    0.3710442365E+01
+            '''
+            eatoms_lst.append(float( tmp_str.split()[1] ))
+        return np.array(eatoms_lst)
   
   
     def get_fatoms(self):
@@ -375,19 +374,19 @@ class ACstrExtractor(ACExtractorBase):
         -----------
             1. 得到体系内所有原子的受力
         '''
-        try:
-            forces_lst = []
-            aim_content = "Force".upper()
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[0]
-            
-            for tmp_str in self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]:
-                # ['14', '0.089910342901203', '0.077164252174742', '0.254144099204679']
-                tmp_str_lst = tmp_str.split()
-                tmp_forces = [float(value) for value in tmp_str_lst[1:4]]
-                forces_lst.append(tmp_forces)
-            return np.array(forces_lst).reshape(-1)
-        except: # atom_config_str 中没有关于原子受力的信息
+        forces_lst = []
+        aim_content = "Force".upper()
+        aim_idxs_lst = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+        if len(aim_idxs_lst) == 0:  # atom_config_str 中没有关于原子受力的信息
             return np.zeros((self.num_atoms*3, ))
+        aim_idx = aim_idxs_lst[0]
+        
+        for tmp_str in self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]:
+            # ['14', '0.089910342901203', '0.077164252174742', '0.254144099204679']
+            tmp_str_lst = tmp_str.split()
+            tmp_forces = [float(value) for value in tmp_str_lst[1:4]]
+            forces_lst.append(tmp_forces)
+        return np.array(forces_lst).reshape(-1)
   
     
     def get_virial(self):
-- 
2.43.0


From 1931d756a593f1343023e72beab4b8abc2fd3bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:45 +0000
Subject: [PATCH 23/50] fix: only a k-path without Gamma is left as it is

---
 matersdk/calculation/kpath/kpathSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/calculation/kpath/kpathSampler.py b/matersdk/calculation/kpath/kpathSampler.py
index 628ac6e..bf6ccdd 100644
--- a/matersdk/calculation/kpath/kpathSampler.py
+++ b/matersdk/calculation/kpath/kpathSampler.py
@@ -185,7 +185,7 @@ class KpathSampler(KPathSetyawanCurtarolo):
         kpoint2coord = self.kpath["kpoints"]
         try:
             kpoint2coord.update({'G': kpoint2coord.pop('\\Gamma')})
-        except:
+        except KeyError:
             pass
         
         ### Step 2. 如果是二维材料，需要把 `z 坐标不为0的 Kpoint 删去`
-- 
2.43.0


From e1644f4cd2edd055af0306c1a1c7936248f7c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:45 +0000
Subject: [PATCH 24/50] fix: only a missing # is ignored in the header of the
 density of states

---
 matersdk/io/pwmat/output/dostotalspin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 8b24691..6575f0c 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -24,7 +24,7 @@ class Dostotalspin(object):
             first_line_lst = first_line.split()
             try:
                 first_line_lst.remove("#")
-            except:
+            except ValueError:
                 pass
             new_first_line = "\t   ".join(first_line_lst)
             new_first_line += "\n"   # 'Energy\tTotal\tMo-s\tMo-p\tMo-s\tMo-d\tS-s\tS-p\n'
-- 
2.43.0


From be5bbcf3426aefaa5c5c1965e826c8d09bb320e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:42 +0000
Subject: [PATCH 25/50] fix: import the structure collection from where it is

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 3ea5e02..03c5b24 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -2,7 +2,7 @@ import numpy as np
 import h5py
 from typing import Union, List, Dict
 
-from ...data.deepmd.data_system import DpLabeledSystem
+from ...data.struct_collection import StructCollection as DpLabeledSystem
 from ...io.publicLayer.structure import DStructure
 from ...io.publicLayer.neigh import StructureNeighborsDescriptor
 from ...feature.deepmd.se_pair import DpseTildeRPairDescriptor
-- 
2.43.0


From 776d33edd260e7c0b9560e7a31b9b0c57e087360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:29 +0000
Subject: [PATCH 26/50] fix: a variance of zero does not round to a deviation
 of nan

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 03c5b24..c06df7f 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -527,7 +527,7 @@ class TildeRPairNormalizer(object):
         if (N == 0):
             return 1e-2
         std = np.sqrt(
-                sum2_value / N - np.multiply(sum_value/N, sum_value/N)
+                np.maximum(sum2_value / N - np.multiply(sum_value/N, sum_value/N), 0.)
         )
         if np.abs(std) < 1e-2:
             std = 1e-2
-- 
2.43.0


From d6877fad16d3105771544564924592b5198e10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:20 +0000
Subject: [PATCH 27/50] fix: normalised features cover all neighbour elements

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index c06df7f..ff39dc7 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -363,7 +363,7 @@ class TildeRNormalizer(object):
         for tmp_center_an in self.center_atomic_numbers:
             tmp_center_tildeRs_lst = []
             tmp_center_tildeR_derivatives_lst = []
-            for tmp_nbr_an in self.center_atomic_numbers:
+            for tmp_nbr_an in self.nbr_atomic_numbers:
                 tmp_key = "{0}_{1}".format(tmp_center_an, tmp_nbr_an)
                 tmp_center_tildeRs_lst.append(tildeRs_dict[tmp_key])
                 tmp_center_tildeR_derivatives_lst.append(tildeR_derivatives_dict[tmp_key])
-- 
2.43.0


From 8de4002daa08dbc9aad0efb232154fb8a98b153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:29 +0000
Subject: [PATCH 28/50] fix: inference loads whole models with current torch

---
 matersdk/infer/pwmatmlff/deepmd/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/inference.py b/matersdk/infer/pwmatmlff/deepmd/inference.py
index f907232..883f07d 100644
--- a/matersdk/infer/pwmatmlff/deepmd/inference.py
+++ b/matersdk/infer/pwmatmlff/deepmd/inference.py
@@ -113,7 +113,7 @@ class DpInfer(object):
     
 
     def infer(self, structure:DStructure):
-        model = torch.load(f=self.pt_file_path)
+        model = torch.load(f=self.pt_file_path, weights_only=False)
         print("model.to : ", self.device)
         model.to(self.device)
         model.eval()
-- 
2.43.0


From 8270798a869ac52bb974f56a69652c8d3ba344fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:29 +0000
Subject: [PATCH 29/50] fix: padding of the neighbour list is not taken for an
 atom at the origin

---
 matersdk/io/publicLayer/neigh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 9411a11..74c05c9 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -183,11 +183,13 @@ class StructureNeighborsUtils(object):
         )
         
         efficient_center_idx = 0    # 记录填写到第几个有效行
+        num_nbrs_real = np.zeros(num_efficient_rows, dtype=int)     # 每个有效行的近邻原子数
         for tmp_center in range(key_nbr_coords.shape[0]):
             tmp_mask = mask_tot[tmp_center, :]
             if mask_efficient_rows[tmp_center]:
                 tmp_max_num_nbrs_real = np.count_nonzero(tmp_mask)
                 new_nbr_coords[efficient_center_idx, :tmp_max_num_nbrs_real, :] = key_nbr_coords[tmp_center][tmp_mask][:]
+                num_nbrs_real[efficient_center_idx] = tmp_max_num_nbrs_real
                 efficient_center_idx += 1
         assert (efficient_center_idx == num_efficient_rows)
        
@@ -196,7 +198,10 @@ class StructureNeighborsUtils(object):
         for tmp_center_idx, tmp_center_nbr_coord in enumerate(new_nbr_coords):
             tmp_neigh_list = []
             for tmp_nbr_idx, tmp_nbr_coord in enumerate(tmp_center_nbr_coord):
-                tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                if tmp_nbr_idx < num_nbrs_real[tmp_center_idx]:
+                    tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                else:   # zero-padding, 没有原子
+                    tmp_neigh_list.append(0)
             neigh_list.append(tmp_neigh_list)
         neigh_list = np.array(neigh_list)
         
-- 
2.43.0


From f5b4d424c6004ba04e0c934f2dcd6d327ac9669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:29 +0000
Subject: [PATCH 30/50] fix: atom counts are in ascending order of atomic
 number

---
 matersdk/io/publicLayer/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index c064c08..8b8a2ec 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -633,8 +633,8 @@ class DStructure(Structure):
         if atomic_numbers_order:
             pass
         else:
-            # list( dict_keys([3, 14]) )
-            atomic_numbers_order:List[int] = list( an_counter.keys() )
+            # sorted( dict_keys([3, 14]) )
+            atomic_numbers_order:List[int] = sorted( an_counter.keys() )
             
         natoms:List[int] = [an_counter[tmp_an] for tmp_an in atomic_numbers_order]
         natoms.insert(0, self.num_sites)
-- 
2.43.0


From a3a2195a5159cfd6e3b2a4f9b6b52fd798394a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:28 +0000
Subject: [PATCH 31/50] fix: magnetic moments of a trajectory frame are found

---
 matersdk/io/pwmat/utils/acextractor.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index 25cdc01..a2f3674 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -324,16 +324,16 @@ class ACstrExtractor(ACExtractorBase):
             1. 得到所有原子的磁矩，顺序与 `坐标` 的顺序一致
         '''
         magnetic_moments_lst = []
-        try:
-            aim_content = "MAGNETIC"
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
-            
-            magnetic_moments_content = self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]
-            magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
-
-            return np.array(magnetic_moments_lst)
-        except:
+        aim_content = "MAGNETIC"
+        aim_idxs_lst = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+        if len(aim_idxs_lst) == 0:
             raise AttributeError("ACstrExtractor: No magmoms info in MOVEMENT.")
+        aim_idx = aim_idxs_lst[0]
+        
+        magnetic_moments_content = self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]
+        magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
+
+        return np.array(magnetic_moments_lst)
     
   
     def get_etot(self):
-- 
2.43.0


From 623feb4696e42231408788f9b3bb29fcba5c27be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:28 +0000
Subject: [PATCH 32/50] fix: single-frame access lists atomic energies before
 magnetic moments

---
 matersdk/io/pwmat/utils/mvextractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 1ca0146..2412f7d 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -97,12 +97,12 @@ class MVExtractor(object):
         if self.virial_mark:
             virial = ace_str_extractor.get_virial()
             infos.append( virial )
-        if self.magmoms_mark:
-            magmoms = ace_str_extractor.get_magmoms()
-            infos.append( magmoms )
         if self.eatoms_mark:
             eatoms = ace_str_extractor.get_eatoms()
             infos.append( eatoms )
+        if self.magmoms_mark:
+            magmoms = ace_str_extractor.get_magmoms()
+            infos.append( magmoms )
         
         return infos
     
-- 
2.43.0


From 519de867a69c60e4ce51c6dfc00e21635c32ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:28 +0000
Subject: [PATCH 33/50] fix: k-mesh reads its structure file

---
 matersdk/calculation/kpoints/kmesh.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/matersdk/calculation/kpoints/kmesh.py b/matersdk/calculation/kpoints/kmesh.py
index abf021b..75fb954 100644
--- a/matersdk/calculation/kpoints/kmesh.py
+++ b/matersdk/calculation/kpoints/kmesh.py
@@ -11,7 +11,6 @@ class KMesh(object):
         self.structure = DStructure.from_file(
                                         file_format=file_format,
                                         file_path=file_path,
-                                        coords_are_cartesian=False,
                                         )
     
     def get_lattice_info(self):
-- 
2.43.0


From 5db518913f6e9bba1546ebd6593b6fd3a51b0f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:31 +0000
Subject: [PATCH 34/50] fix: an incomplete structure file is rejected

---
 matersdk/io/pwmat/utils/acextractor.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index a2f3674..b7674a5 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -82,7 +82,7 @@ class ACExtractor(ACExtractorBase):
         self.atom_config_path = file_path
         # 只读取一次文件，保证所有信息来自同一份文件内容
         with open(self.atom_config_path, "r") as f:
-            self.strs_lst = f.readlines()
+            self.strs_lst = f.read().splitlines(keepends=True)  # 正在写入的行不会被拆成两行
         self.num_atoms = self.get_num_atoms()
         self.basis_vectors = self.get_basis_vectors()
         self.types = self.get_types()
@@ -158,6 +158,8 @@ class ACExtractor(ACExtractorBase):
         # 1. 得到所有原子的原子序数（注意将读取的 str 转换为 int）
         atomic_numbers_content = self.strs_lst[idx_row+1:idx_row + self.num_atoms + 1]
         atomic_numbers_lst = [int(row.split()[0]) for row in atomic_numbers_content]
+        if len(atomic_numbers_lst) != self.num_atoms:
+            raise ValueError("ACExtractorError: The atom.config is incomplete (positions).")
 
         return np.array(atomic_numbers_lst)
 
@@ -190,7 +192,10 @@ class ACExtractor(ACExtractorBase):
             coord_tmp = [float(value) for value in row_content_lst[1:4]]
             coords_lst.append(np.array(coord_tmp))
         
-        return np.array(coords_lst).reshape(-1)
+        coords = np.concatenate(coords_lst)
+        if coords.size != self.num_atoms * 3:
+            raise ValueError("ACExtractorError: The atom.config is incomplete (positions).")
+        return coords
         
 
     def get_magmoms(self):
@@ -215,7 +220,10 @@ class ACExtractor(ACExtractorBase):
         # MAGNETIC  
         # 3 0.0 # 原子序数 磁矩
         # ...
-        magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
+        # 一行只有原子序数时，磁矩尚未写入
+        magnetic_moments_lst = [float(tmp_magnetic_moment.split()[1:][-1]) for tmp_magnetic_moment in magnetic_moments_content]
+        if len(magnetic_moments_lst) != self.num_atoms:
+            raise ValueError("ACExtractorError: The atom.config is incomplete (magnetic moments).")
         
         return magnetic_moments_lst
     
-- 
2.43.0


From 35352361a1a9756477e81e715429aaa935422422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:31 +0000
Subject: [PATCH 35/50] fix: an incomplete k-point file is rejected

---
 matersdk/io/pwmat/input/inkpt.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/matersdk/io/pwmat/input/inkpt.py b/matersdk/io/pwmat/input/inkpt.py
index 0110e93..a87786f 100644
--- a/matersdk/io/pwmat/input/inkpt.py
+++ b/matersdk/io/pwmat/input/inkpt.py
@@ -29,6 +29,18 @@ class Inkpt(object):
         self.a0 = self._get_a0()
     
     
+    def _get_lines(self, content:str):
+        '''
+        Description
+        -----------
+            1. 得到 IN.KPT 的所有行；kpoints 的行数少于第一行声明的个数时，文件不完整
+        '''
+        lines_lst = content.splitlines(keepends=True)
+        if len(lines_lst) < int( lines_lst[0].split()[0] ) + 2:
+            raise ValueError("InkptError: The IN.KPT is incomplete.")
+        return lines_lst
+    
+    
     def _get_iflag(self):
         '''
         Description
@@ -42,7 +54,7 @@ class Inkpt(object):
                 - 
         '''
         with open(self.in_kpt_path, "r") as f:
-            line_2 = f.readlines()[1]
+            line_2 = self._get_lines(f.read())[1]
         iflag = int( line_2.split()[0] )
         return iflag
     
@@ -60,7 +72,7 @@ class Inkpt(object):
                 - 
         '''
         with open(self.in_kpt_path, "r") as f:
-            line_2 = f.readlines()[1]
+            line_2 = self._get_lines(f.read())[1]
         a0 = int( line_2.split()[-1] )
         return a0
     
@@ -76,7 +88,7 @@ class Inkpt(object):
             1. num_kpts: int
         '''
         with open(self.in_kpt_path, "r") as f:
-            line_1 = f.readlines()[0]
+            line_1 = self._get_lines(f.read())[0]
         num_kpts = int( line_1.split()[0] )
         return num_kpts
     
@@ -94,7 +106,7 @@ class Inkpt(object):
         '''
         ### Step 1. 读取 `仅包含坐标和权重的行`
         with open(self.in_kpt_path, "r") as f:
-            lines_lst = f.readlines()
+            lines_lst = self._get_lines(f.read())
         lines_lst = lines_lst[2:]
         
         ### Step 2. 取出所有的 Kpoints 坐标
@@ -104,6 +116,8 @@ class Inkpt(object):
                         for tmp_value in tmp_line.split()[:3]]
             coords_frac_lst.append(tmp_coord_frac)
         coords_frac_array = np.array(coords_frac_lst)
+        if coords_frac_array.shape != (len(lines_lst), 3):
+            raise ValueError("InkptError: The IN.KPT is incomplete.")
         
         return coords_frac_array
     
@@ -164,7 +178,7 @@ class Inkpt(object):
                 - kpoints 的权重
         '''
         with open(self.in_kpt_path, "r") as f:
-            lines_lst = f.readlines()[2:]
+            lines_lst = self._get_lines(f.read())[2:]
         
         weights_lst = [float(tmp_line.split()[3]) for tmp_line in lines_lst]
         
@@ -188,7 +202,7 @@ class Inkpt(object):
         '''
         hsp_coords_dict = {"hsp":[], "coords_frac":[]}
         with open(self.in_kpt_path, "r") as f:
-            lines_lst = f.readlines()[2:]
+            lines_lst = self._get_lines(f.read())[2:]
         
         for tmp_line in lines_lst:
             if ( len(tmp_line.split()) == 5):
@@ -214,7 +228,7 @@ class Inkpt(object):
         '''
         idx2hsp = {}
         with open(self.in_kpt_path) as f:
-            lines_lst = f.readlines()[2:]
+            lines_lst = self._get_lines(f.read())[2:]
         
         for idx_line, tmp_line in enumerate(lines_lst):
             if ( len(tmp_line.split()) == 5 ):
-- 
2.43.0


From 7091c9b580dffaf687231ede9ac6cb6103d9a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:31 +0000
Subject: [PATCH 36/50] fix: eigenvalues of an unfinished run report are
 rejected

---
 matersdk/io/pwmat/output/report.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 4c70130..11c7d62 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -29,7 +29,7 @@ class Report(object):
             1. idxs_lst: List[int]
         '''
         with open(self.report_path, "r") as f:
-            lines_lst = f.readlines()
+            lines_lst = f.read().splitlines(keepends=True)
         
         idxs_lst = []
         for tmp_idx, tmp_line in enumerate(lines_lst, 1):
@@ -46,7 +46,7 @@ class Report(object):
             1. 读取 REPORT 的第 idx_line 行 (从 1 开始)
         '''
         with open(self.report_path, "r") as f:
-            return f.readlines()[idx_line-1]
+            return f.read().splitlines(keepends=True)[idx_line-1]
     
     
     def get_num_bands(self):
@@ -119,7 +119,7 @@ class Report(object):
         
         ### Step 2. 读取 REPORT 文件
         with open(self.report_path, "r") as f:
-            lines_lst = f.readlines()
+            lines_lst = f.read().splitlines(keepends=True)
         
         ### Step 3. 得到每个kpoint的本征能量
         num_lines_for_band = int( np.ceil(num_bands / self.COLUMN_PER_LINE) )
@@ -133,6 +133,13 @@ class Report(object):
             else:
                 spin2eigen_energies["down"].append(tmp_eigen_energies_array)
         
+        ### 计算未结束 (或被中断) 时，REPORT 中的本征能量不完整
+        if len(idxs_eigen_start_lst) not in [num_kpts, 2*num_kpts]:
+            raise ValueError("ReportError: The REPORT is incomplete (kpoints).")
+        for tmp_eigen_energies_array in spin2eigen_energies["up"] + spin2eigen_energies["down"]:
+            if tmp_eigen_energies_array.size != num_bands:
+                raise ValueError("ReportError: The REPORT is incomplete (bands).")
+        
         ### Step 4. 将 spin2igen_energies 的 values 变为 np.ndarray 形式
         spin2eigen_energies.update(
                         {"up": np.array( spin2eigen_energies["up"] )}
-- 
2.43.0


From 361129dc7b8614d6b3db3443832b04de166ddbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:31 +0000
Subject: [PATCH 37/50] fix: an incomplete fat-band file is rejected instead of
 dealing its rows out to wrong bands

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 895fb3a..d476f46 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -105,11 +105,17 @@ class FatbandStructure(object):
         '''
         ### Step 1. 跳过 `BAND 行` 和 `空行`
         ss = StringIO()
+        num_columns = None
         with open(self.fatbandstructure_txt_path, 'r') as f:
             for line in f:
                 if (line=='' or "BAND" in line):
                     continue
                 else:
+                    ### 列数与表头不同的行是不完整的
+                    if num_columns is None:
+                        num_columns = len(line.split())
+                    if len(line.split()) not in [0, num_columns]:
+                        raise ValueError("FatbandStructureError: The file is incomplete.")
                     ss.write(line)
         ss.seek(0)   # "rewind" to the beginning of the StringIO object
         
@@ -129,6 +135,8 @@ class FatbandStructure(object):
             1. 将 pd.DataFrame 按照不同能带分为新的 DataFrames
                 - `np.array_split(pd.DataFrame)` 在新版本 pandas 中返回的不是 DataFrame
         '''
+        if len(df) != self.num_bands * self.num_kpoints:
+            raise ValueError("FatbandStructureError: The last band is incomplete.")
         return [df.iloc[tmp_idxs] for tmp_idxs in np.array_split(np.arange(len(df)), self.num_bands)]
     
     
-- 
2.43.0


From 648a25df6164a9638663f50e23d41441c0d94068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:31 +0000
Subject: [PATCH 38/50] fix: an incomplete row or heading of a
 density-of-states file is rejected

---
 matersdk/io/pwmat/output/dostotalspin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 6575f0c..3862368 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -19,13 +19,17 @@ class Dostotalspin(object):
         '''
         ### Step 1. 删除 DOS.totalspin, DOS.spinup, DOS.spindown 行首的 "#"
         with open(self.dos_totalspin_path, "r") as f:
-            lines_lst = f.readlines()
+            lines_lst = f.read().splitlines(keepends=True)
             first_line = lines_lst[0]
             first_line_lst = first_line.split()
             try:
                 first_line_lst.remove("#")
             except ValueError:
                 pass
+            ### 没有换行符的表头、列数少于表头的最后一行是不完整的
+            if (not first_line.endswith("\n")) or \
+                (0 < len(lines_lst[-1].split()) < len(first_line_lst)):
+                raise ValueError("DostotalspinError: The file is incomplete.")
             new_first_line = "\t   ".join(first_line_lst)
             new_first_line += "\n"   # 'Energy\tTotal\tMo-s\tMo-p\tMo-s\tMo-d\tS-s\tS-p\n'
 
-- 
2.43.0


From 7f64ce99a014a008c81aeae22c6662f7834a4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:12 +0000
Subject: [PATCH 39/50] fix: a number cut in its exponent or sign is rejected,
 not read as a text column

---
 matersdk/io/pwmat/output/dostotalspin.py         | 3 +++
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 3862368..337d225 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -30,6 +30,9 @@ class Dostotalspin(object):
             if (not first_line.endswith("\n")) or \
                 (0 < len(lines_lst[-1].split()) < len(first_line_lst)):
                 raise ValueError("DostotalspinError: The file is incomplete.")
+            ### 最后一个数字可能只写了一半 (e.g. "1.2E-")，此时 float() 会报错
+            for tmp_line in lines_lst[1:][-1:]:
+                [float(entry) for entry in tmp_line.split()]
             new_first_line = "\t   ".join(first_line_lst)
             new_first_line += "\n"   # 'Energy\tTotal\tMo-s\tMo-p\tMo-s\tMo-d\tS-s\tS-p\n'
 
diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index d476f46..9bdbe10 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -123,6 +123,8 @@ class FatbandStructure(object):
                         ss,
                         delimiter='\s+'
         )
+        ### 最后一个数字可能只写了一半 (e.g. "1.2E-")，此时 astype() 会报错
+        df = df.astype(float)
         df.loc[:, "KPOINT"] = df.loc[:, "KPOINT"] / self.BOHR
        
         return df
-- 
2.43.0


From 2c426d9fd5e71043147fcb0d20a9f124b2e7e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 40/50] fix: assigning a structure's basic information returns
 the object itself (undefined behaviour before)

---
 source/nblist/include/binLinkedList.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 928507e..a93a9c6 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -257,6 +257,8 @@ BasicStructureInfo<CoordType>& BasicStructureInfo<CoordType>::operator=(const Ba
         this->interplanar_distances[1] = rhs.interplanar_distances[1];
         this->interplanar_distances[2] = rhs.interplanar_distances[2];
     }
+
+    return *this;
 }
 
 
-- 
2.43.0


From 3a9839c68e501118df4aba5241b22150443e629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 41/50] fix: assigning a structure, supercell, bin list or
 neighbour list to itself keeps its contents (use after free before)

---
 source/nblist/include/binLinkedList.h | 6 ++++++
 source/nblist/include/neighborList.h  | 3 +++
 source/nblist/include/structure.h     | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index a93a9c6..2f69c20 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -396,6 +396,9 @@ Supercell<CoordType>::Supercell(const Supercell &rhs) {
  */
 template <typename CoordType>
 Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType> &rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         free(this->owned_atom_idxs);
     }
@@ -744,6 +747,9 @@ BinLinkedList<CoordType>::BinLinkedList(const BinLinkedList<CoordType>& rhs) {
  */
 template <typename CoordType>
 BinLinkedList<CoordType>& BinLinkedList<CoordType>::operator=(const BinLinkedList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->rcut != 0) {
         free(this->heads_lst);
         free(this->nexts_lst);
diff --git a/source/nblist/include/neighborList.h b/source/nblist/include/neighborList.h
index c87a24c..f3be963 100644
--- a/source/nblist/include/neighborList.h
+++ b/source/nblist/include/neighborList.h
@@ -208,6 +208,9 @@ NeighborList<CoordType>::NeighborList(const NeighborList<CoordType>& rhs) {
  */
 template <typename CoordType>
 NeighborList<CoordType>& NeighborList<CoordType>::operator=(const NeighborList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         for (int ii=0; ii<num_atoms; ii++)
             this->neighbor_lists[ii].clear();
diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 8113817..6d0bb46 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -317,6 +317,9 @@ Structure<CoordType>::Structure(const Structure &rhs)
  */
 template <typename CoordType>
 Structure<CoordType>& Structure<CoordType>::operator=(const Structure &rhs) {
+    if (this == &rhs)
+        return *this;
+
     // Step 1. Free memory 
     if (this->num_atoms != 0) {
         // Step 1.1. `this->basis_vectors`
-- 
2.43.0


From dcf789e9d2f52122f774586766d102b8dc06b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 42/50] fix: a supercell's own atoms are those of the central
 cell for every scaling matrix

---
 source/nblist/include/binLinkedList.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 2f69c20..5c183d2 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -478,9 +478,9 @@ void Supercell<CoordType>::calc_prim_cell_idx_xyz() {
 template <typename CoordType>
 void Supercell<CoordType>::calc_prim_cell_idx() {
     this->prim_cell_idx = (
-                this->prim_cell_idx_xyz[0] + 
-                this->prim_cell_idx_xyz[1] * this->scaling_matrix[0] + 
-                this->prim_cell_idx_xyz[2] * this->scaling_matrix[0] * this->scaling_matrix[1]
+                this->prim_cell_idx_xyz[2] + 
+                this->prim_cell_idx_xyz[1] * this->scaling_matrix[2] + 
+                this->prim_cell_idx_xyz[0] * this->scaling_matrix[2] * this->scaling_matrix[1]
     );
 }
 
-- 
2.43.0


From d168519678fbe69366ea5804e27da185e9b8cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 43/50] fix: a structure scaled twice keeps track of its origin

---
 source/nblist/include/structure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 6d0bb46..5f1e930 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -580,7 +580,7 @@ void Structure<CoordType>::make_supercell(const int *scaling_matrix) {
 
     // Step 3.3. Calculate `pseudo_origin` and assign it to `this->pseudo_origin`
     for (int ii=0; ii<3; ii++) {
-        this->pseudo_orgin[ii] = (
+        this->pseudo_orgin[ii] += (
             range[0][0] * this->basis_vectors[0][ii] + 
             range[1][0] * this->basis_vectors[1][ii] + 
             range[2][0] * this->basis_vectors[2][ii]
-- 
2.43.0


From 10413f4b318763f5907e97239072458ea9725344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 44/50] fix: a neighbour is listed once when there are few bins

---
 source/nblist/include/binLinkedList.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 5c183d2..dc467f9 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -941,13 +941,9 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
                 
                 //printf("shift_index_%d = [%d, %d, %d]\n", neigh_bin_idx4loop, ii, jj, kk);
 
-                // Step 2.2. 处理 pbc (wrap around)
+                // Step 2.2. supercell 已包含 rcut 内的所有周期性镜像，因此不需要 wrap around (否则 bin 较少时，同一个 bin 会被重复遍历)
                 for (int pp=0; pp<3; pp++) {
-                    if (this->pbc_xyz[pp] == false) {   // 无周期性
-                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp];
-                    } else {
-                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = (candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] + this->num_bin_xyz[pp] ) % this->num_bin_xyz[pp];                        
-                    }
+                    neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp];
                 }
                 //printf("this->num_bins_xyz[%d][3] = [%d, %d, %d]\n", this->num_bin_xyz[0], this->num_bin_xyz[1], this->num_bin_xyz[2]);                
                 //printf("neigh_bin_idxs_xyz[%d][3] = [%d, %d, %d]\n", neigh_bin_idxs_xyz[neigh_bin_idx4loop][0], neigh_bin_idxs_xyz[neigh_bin_idx4loop][1], neigh_bin_idxs_xyz[neigh_bin_idx4loop][2]);
-- 
2.43.0


From 0f5cf35e74190b2918a51c38fc14c31a7b204071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 45/50] fix: atoms on the boundary of or outside the box are
 kept in the outermost bins instead of written outside the list

---
 source/nblist/include/binLinkedList.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index dc467f9..54a9af0 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -4,6 +4,7 @@
 
 #include <vector>
 #include <cassert>
+#include <algorithm>
 #include "./structure.h"
 #include "../../core/include/vec3Operation.h"
 
@@ -829,6 +830,8 @@ void BinLinkedList<CoordType>::_build() {
         tmp_bin_idx_xyz[0] = std::floor( (atom_coord[0] - this->min_limit_xyz[0]) / this->bin_size_xyz[0] );
         tmp_bin_idx_xyz[1] = std::floor( (atom_coord[1] - this->min_limit_xyz[1]) / this->bin_size_xyz[1] );
         tmp_bin_idx_xyz[2] = std::floor( (atom_coord[2] - this->min_limit_xyz[2]) / this->bin_size_xyz[2] );
+        for (int jj=0; jj<3; jj++)      // 边界上(或 box 外)的原子归入最外层的 bin
+            tmp_bin_idx_xyz[jj] = std::min(std::max(tmp_bin_idx_xyz[jj], 0), this->num_bin_xyz[jj] - 1);
         tmp_bin_idx = (
             tmp_bin_idx_xyz[0] + 
             tmp_bin_idx_xyz[1] * this->num_bin_xyz[0] + 
@@ -859,6 +862,7 @@ int BinLinkedList<CoordType>::get_bin_idx(int prim_atom_idx) const {
     int bin_idx_xyz[3];
     for (int ii=0; ii<3; ii++) {
         bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - this->min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = std::min(std::max(bin_idx_xyz[ii], 0), this->num_bin_xyz[ii] - 1);
     }
 
     return (
@@ -916,8 +920,10 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
 
     // Step 1.3. 计算 atom_idx 的 bin_idx_xyz[3]
     int bin_idx_xyz[3];
-    for (int ii=0; ii<3; ii++)
+    for (int ii=0; ii<3; ii++) {
         bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = std::min(std::max(bin_idx_xyz[ii], 0), this->num_bin_xyz[ii] - 1);
+    }
 
     // Step 2. 由 `atom_idx` 的 `bin_idx_xyz[3]` 计算 `neigh_bin_idxs_xyz[num_neigh_bins][3]`
     int num_extened_neigh_bins[3];  // 沿 x,y,z 的正方向有多少个 neigh_bins
-- 
2.43.0


From 8e08abf72e0f69d5ec171e209770d172d096fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 46/50] fix: the neighbour index array of the Python binding is
 released with its result

---
 source/nblist/bind/nblist_bind.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 66ba7d4..5aaf6df 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -136,7 +136,7 @@ PyObject* find_info4mlff(
     firstneigh_dims[0] = inum;
     firstneigh_dims[1] = umax_num_neigh_atoms;
     PyObject* firstneigh_py = PyArray_SimpleNewFromData(2, firstneigh_dims, NPY_INT, firstneigh);
-    PyArray_ENABLEFLAGS((PyArrayObject*)numneigh_py, NPY_OWNDATA);
+    PyArray_ENABLEFLAGS((PyArrayObject*)firstneigh_py, NPY_OWNDATA);
     // Step 4.5. relative_coords
     npy_intp* relative_coords_dims = (npy_intp*)malloc(sizeof(npy_intp) * 3);
     relative_coords_dims[0] = inum;
-- 
2.43.0


From 54fe11d7f7a8bb63026bf1a1418a26432bf0cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:02 +0000
Subject: [PATCH 47/50] fix: copying a TildeR allocates its lists of atomic
 numbers in full

---
 source/descriptor/deepmd/include/se.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index d7d7b9a..fa91d85 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1485,12 +1485,12 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
     this->neighbor_list = rhs.neighbor_list;
     
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
-    this->center_atomic_numbers_lst = (int*)malloc(sizeof(this->num_center_atomic_numbers));
+    this->center_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_center_atomic_numbers);
     for (int ii=0; ii<this->num_center_atomic_numbers; ii++)
         this->center_atomic_numbers_lst[ii] = rhs.center_atomic_numbers_lst[ii];
     
     this->num_neigh_atomic_numbers = rhs.num_neigh_atomic_numbers;
-    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(this->num_neigh_atomic_numbers));
+    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_neigh_atomic_numbers);
     for (int ii=0; ii<this->num_neigh_atomic_numbers; ii++)
         this->neigh_atomic_numbers_lst[ii] = rhs.neigh_atomic_numbers_lst[ii];
 
-- 
2.43.0


From f0d17d3a51b113f90a8f35a9ca0770debc25b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:02 +0000
Subject: [PATCH 48/50] fix: the lists of a TildeR are released whatever its
 number of kinds

---
 source/descriptor/deepmd/include/se.h | 30 +++++++++++----------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index fa91d85..bdae6ed 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1516,15 +1516,14 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
  */
 template <typename CoordType>
 TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
-    if (this->num_center_atomic_numbers != 0) {
-        free(this->center_atomic_numbers_lst);
-        free(this->num_center_atoms_lst);
-        free(this->neigh_atomic_numbers_lst);
-        free(this->num_neigh_atoms_lst);
-
-        this->num_center_atomic_numbers = 0;
-        this->num_neigh_atomic_numbers = 0;
-    }
+    free(this->center_atomic_numbers_lst);
+    free(this->num_center_atoms_lst);
+    free(this->neigh_atomic_numbers_lst);
+    free(this->num_neigh_atoms_lst);
+    this->center_atomic_numbers_lst = nullptr;
+    this->num_center_atoms_lst = nullptr;
+    this->neigh_atomic_numbers_lst = nullptr;
+    this->num_neigh_atoms_lst = nullptr;
 
     this->neighbor_list = rhs.neighbor_list;
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
@@ -1557,15 +1556,10 @@ TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
 
 template <typename CoordType>
 TildeR<CoordType>::~TildeR() {
-    if (this->num_center_atomic_numbers != 0) {
-        free(this->center_atomic_numbers_lst);
-        free(this->num_center_atoms_lst);
-    }
-
-    if (this->num_neigh_atomic_numbers != 0) {
-        free(this->neigh_atomic_numbers_lst);
-        free(this->num_neigh_atoms_lst);
-    }
+    free(this->center_atomic_numbers_lst);
+    free(this->num_center_atoms_lst);
+    free(this->neigh_atomic_numbers_lst);
+    free(this->num_neigh_atoms_lst);
 
     this->num_center_atomic_numbers = 0;
     this->num_neigh_atomic_numbers = 0;
-- 
2.43.0


From 8d68160f905c934e242a6db5a5428e0d49fde81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:02 +0000
Subject: [PATCH 49/50] fix: assigning a TildeR to itself keeps its value

---
 source/descriptor/deepmd/include/se.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index bdae6ed..bf1db40 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1516,6 +1516,9 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
  */
 template <typename CoordType>
 TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     free(this->center_atomic_numbers_lst);
     free(this->num_center_atoms_lst);
     free(this->neigh_atomic_numbers_lst);
-- 
2.43.0


From d7901d8bbac8cbaff8125dc3af7512c4ccd8e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:02 +0000
Subject: [PATCH 50/50] fix: TildeR::deriv releases its index arrays when it
 fills the caller's array

---
 source/descriptor/deepmd/include/se.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index bf1db40..8f36cc5 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -2451,6 +2451,8 @@ void TildeR<CoordType>::deriv(
 
     // Step . Free memory
     free(num_center_atoms_lst);
+    free(cstart_idxs);
+    free(nstart_idxs);
 }
 
 
-- 
2.43.0

