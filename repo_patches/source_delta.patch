From bdd31c71a9043739c7f84139fa1eeef5f44da9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 01/72] fix: import EmptyFileError where empty files are
 refused

---
 weio/bladed_out_file.py        | 2 +-
 weio/bmodes_out_file.py        | 2 +-
 weio/cactus_element_file.py    | 2 +-
 weio/fast_input_file.py        | 2 +-
 weio/raawmat_file.py           | 2 +-
 weio/rosco_performance_file.py | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 1315fb2..f32e9d7 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import glob
 import shlex
 # try:
-from .file import File, WrongFormatError, BrokenFormatError, isBinary
+from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError, isBinary
 # except:
 #     EmptyFileError    = type('EmptyFileError', (Exception,),{})
 #     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index 9022ccf..ca6f705 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index b899787..5173181 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -3,7 +3,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 51a6868..90c75d1 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -8,7 +8,7 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     # --- Allowing this file to be standalone..
     class WrongFormatError(Exception):
diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index fc5661e..dc7d063 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -111,7 +111,7 @@ def matfile(path_file,output='pandas',path_key=None):
         return ds
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 18deea1..00c44c8 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From 653b3ad61a54be2527c1996ac02112fadbd9c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 02/72] fix: HAWCStab2 readers raise the intended format errors
 instead of NameError

---
 weio/hawcstab2_ind_file.py | 6 +++---
 weio/hawcstab2_pwr_file.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 3d41940..07e899d 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -12,7 +12,7 @@ standard_library.install_aliases()
 import os
 import re
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -32,7 +32,7 @@ class HAWCStab2IndFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename))
         # Extracting column names
         header       = '00'+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -53,7 +53,7 @@ class HAWCStab2IndFile(File):
             raise BrokenFormatError('Ind File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
         self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
diff --git a/weio/hawcstab2_pwr_file.py b/weio/hawcstab2_pwr_file.py
index add7a22..4df2419 100644
--- a/weio/hawcstab2_pwr_file.py
+++ b/weio/hawcstab2_pwr_file.py
@@ -10,7 +10,7 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -30,7 +30,7 @@ class HAWCStab2PwrFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename))
         # Extracting column names
         header       = '0 '+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -46,7 +46,7 @@ class HAWCStab2PwrFile(File):
             raise BrokenFormatError('Pwr File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
     #def _write(self):
         #self.data.to_csv(self.filename,sep=self.false,index=False)
-- 
2.43.0


From 14ae53ac354ecc4505e29e7908ba72dee6777867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 03/72] fix: OpenFAST output writer handles channels without
 unit and refuses ascii output; truncated-file message

---
 weio/fast_output_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 94ee22c..a8a3307 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -242,7 +242,7 @@ def load_binary_output(filename, use_buffer=True):
                 nLinesRead = nLinesRead + nLinesToRead
                 nIntRead   = nIntRead   + nIntToRead
         except:
-            raise Exception('Read only %d of %d values in file:' % (nIntRead, n, filename))
+            raise Exception('Read only %d of %d values in file: %s' % (nIntRead, n, filename))
         return data
 
 
@@ -366,7 +366,7 @@ def writeDataFrame(df, filename, binary=True):
     for c in df.columns:
         c     = c.strip()
         name  = c
-        units = ''
+        unit  = ''
         if c[-1]==']':
             chars=['[',']']
         elif c[-1]==')':
@@ -388,7 +388,7 @@ def writeDataFrame(df, filename, binary=True):
     if binary:
         writeBinary(filename, channels, chanNames, chanUnits)
     else:
-        NotImplementedError()
+        raise NotImplementedError()
 
 
 def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
-- 
2.43.0


From 253676b79e524bb5e5183bea7411994e51f5a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 04/72] fix: mini_yaml: key without value on the last line, and
 message for unsupported lines

---
 weio/mini_yaml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index 04269b9..27bbdf1 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -32,6 +32,9 @@ def yaml_read(filename,dictIn=None):
     def readDashList(iStart):
         """ """
         i=iStart
+        iEnd=iStart-1
+        if iStart>=len(lines):
+            return np.zeros((0,0), int), iStart # nothing after the key
         while i<len(lines):
             l = lines[i].strip()
             if len(l)==0:
@@ -84,7 +87,7 @@ def yaml_read(filename,dictIn=None):
                 except:
                     d[key]=val.strip()
         else:
-            raise Exception('Line {:d} has colon, number of splits is {}, which is not supported'.format(len(sp)))
+            raise Exception('Line {:d} has colon, number of splits is {}, which is not supported'.format(i, len(sp)))
     return d
 
 
-- 
2.43.0


From 99a5a3b9ab8a647bf0c05977d7f711589202261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 05/72] fix: writers call toString instead of writing the
 method object

---
 weio/cactus_element_file.py | 2 +-
 weio/cactus_file.py         | 2 +-
 weio/flex_profile_file.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index 5173181..d6081fe 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -87,7 +87,7 @@ class CactusElementFile(File):
     def _write(self):
         """ """
         with open(self.filename,'w') as f:
-            f.write(self.toString)
+            f.write(self.toString())
 
     def toDataFrame(self):
         #cols=['Alpha_[deg]','Cl_[-]','Cd_[-]','Cm_[-]']
diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 7745a39..857bf37 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -366,7 +366,7 @@ class CactusFile(File):
     def _write(self):
         """ """
         with open(self.filename,'w') as f:
-            f.write(self.toString)
+            f.write(self.toString())
 
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 9a29f17..17add9f 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -126,7 +126,7 @@ class FLEXProfileFile(File):
 
     def _write(self):
         with open(self.filename,'w') as f:
-            f.write(self.toString)
+            f.write(self.toString())
 
     def __repr__(self):
         s ='Class FlexProfileFile (attributes: ProfileSets)\n'
-- 
2.43.0


From ddaba8dc86109174aa6b8dad95b9556f4ff81b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 06/72] fix: readers report truncated or unsupported files
 instead of using unassigned variables

---
 weio/bladed_out_file.py         | 3 +++
 weio/fast_input_file.py         | 1 +
 weio/fast_linearization_file.py | 2 ++
 weio/flex_out_file.py           | 2 ++
 weio/raawmat_file.py            | 2 +-
 weio/rosco_performance_file.py  | 6 ++++++
 weio/wetb/hawc2/st_file.py      | 3 +++
 7 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index f32e9d7..7af3060 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -216,6 +216,9 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
                 data = np.empty((nMajor, nSections, nSensors)) * np.nan
                 print('>>> Failed to read 3d ascii file: {}'.format(dataFilename))
 
+        else:
+            raise BrokenFormatError('Unsupported number of dimensions ({}) in bladed sensor file: {}'.format(sensorInfo['NDIMENS'], sensorFilename))
+
     return OrgData(data, **sensorInfo)
 
 
diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 90c75d1..af95363 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1158,6 +1158,7 @@ def parseFASTNumTable(filename,lines,n,iStart,nHeaders=2,tableType='num',nOffset
     Tab = None
     ColNames = None
     Units = None
+    i = 0
     
 
     if len(lines)!=n+nHeaders+nOffset:
diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 374d432..c7a99fc 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -58,6 +58,8 @@ class FASTLinearizationFile(File):
                 if line.find(marker)>=0:
                     break
                 lines.append(line.strip())
+            else:
+                raise BrokenFormatError('`{}` not found in file'.format(marker))
             return lines, line
         
         def readOP(fid, n):
diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index d9c95e5..76268d1 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -111,6 +111,8 @@ def read_flex_res(filename, dtype=np.float32):
             tmin = np.fromfile(fid, 'f', 1)[0] # Dummy
             dt = np.fromfile(fid, 'f', 1)[0] # Dummy
             scale_factors = np.fromfile(fid, 'f', nSensors).astype(dtype)
+        else:
+            raise WrongFormatError('Unsupported version {} of flex out file'.format(Version))
         # --- Reading Time series
         # FILE POSITION <<< fid.seek(8*nSensors + 48*2)
         data = np.fromfile(fid, 'int16').astype(dtype) #data = np.fromstring(fid.read(), 'int16').astype(dtype)
diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index dc7d063..25a5fa0 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -51,7 +51,7 @@ def matfile(path_file,output='pandas',path_key=None):
             print('ERROR: '+name+' ignored!')
 
     # create time index for each dataframe
-    tstamp = np.array2string(data[signal][0][5][0], separator=',')
+    tstamp = np.array2string(data[-1][0][5][0], separator=',')
     tstamp = tstamp.replace(' ','').replace('[','').replace(']','')
     t0 = pd.to_datetime(tstamp,format='%Y,%m,%d,%H,%M,%S')
     tstamp50hz = pd.date_range(start=t0,periods=30000,freq='20ms')
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 00c44c8..9a3a68f 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -131,6 +131,9 @@ def load_from_txt(txt_filename):
     pitch = None
     TSR   = None
     WS    = None
+    Cp    = None
+    Ct    = None
+    Cq    = None
 
     with open(txt_filename) as pfile:
         for iline, line in enumerate(pfile):
@@ -170,6 +173,9 @@ def load_from_txt(txt_filename):
             if pitch is None and iline>10:
                 raise WrongFormatError('This does not appear to be a ROSCO performance file, Pitch vector not found')
 
+        if any(x is None for x in [pitch, TSR, Cp, Ct, Cq]):
+            raise WrongFormatError('This does not appear to be a ROSCO performance file, some of the vectors or tables are missing')
+
         return pitch, TSR, WS, Cp, Ct, Cq
 
 
diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 91497a0..b5b0d55 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -76,6 +76,7 @@ class StFile(object):
 #         no_maindata_sets = int(txt.strip()[0])
 #         assert no_maindata_sets == txt.count("#")
         self.main_data_sets = {}
+        linelst = []
         for mset in txt.split("#")[1:]:
             mset_nr = int(mset.strip().split()[0])
             set_data_dict = {}
@@ -95,6 +96,8 @@ class StFile(object):
                 set_data_dict[set_nr] = np.array(linelst, dtype=float)
             self.main_data_sets[mset_nr] = set_data_dict
 
+        if len(linelst)==0:
+            raise TypeError('no data set found in st file')
         if len(linelst[0])==len(stc.split()):
             self.cols = stc.split()
         elif len(linelst[0])==len(fpm.split()):
-- 
2.43.0


From ef399b6f80aeefd345aa26272ba06538106974cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 07/72] fix: graph tools: undefined names in printing, json
 export and element division

---
 weio/tools/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index e924ef1..0df2ae8 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -330,7 +330,7 @@ class GraphModel(object):
         s+='\n'.join(str(m) for m in self.Modes)
         s+='\n- Motions ({}):'.format(len(self.Motions))
         for m in self.Motions:
-            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isintance(v,np.ndarray)})
+            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isinstance(v,np.ndarray)})
         return s
 
     # --------------------------------------------------------------------------------}
@@ -439,6 +439,8 @@ class GraphModel(object):
             for i in range(1,nPerElement):
                 maxElemId+=1
                 elem_dict = e.data.copy()
+                propIDs=None
+                propset=None
                 # Creating extra properties if necessary
                 if e.propIDs is not None:
                     if all(e.propIDs==e.propIDs[0]):
@@ -661,9 +663,9 @@ def to_json(o, level=0):
     ret += str(o)
   elif isinstance(o, float):
     ret += '%.7g' % o
-  elif isinstance(o, numpy.ndarray) and numpy.issubdtype(o.dtype, numpy.integer):
+  elif isinstance(o, np.ndarray) and np.issubdtype(o.dtype, np.integer):
     ret += "[" + ','.join(map(str, o.flatten().tolist())) + "]"
-  elif isinstance(o, numpy.ndarray) and numpy.issubdtype(o.dtype, numpy.inexact):
+  elif isinstance(o, np.ndarray) and np.issubdtype(o.dtype, np.inexact):
     ret += "[" + ','.join(map(lambda x: '%.7g' % x, o.flatten().tolist())) + "]"
   elif o is None:
     ret += 'null'
-- 
2.43.0


From 9e37a55511744226c4506bc2482cc807634a16c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 08/72] fix: undefined names and attributes in TurbSim
 coherence, BModes, HAWC2 pc and htc helpers

---
 weio/bmodes_out_file.py         | 1 +
 weio/hawc2_pc_file.py           | 2 +-
 weio/turbsim_file.py            | 4 +++-
 weio/wetb/hawc2/htc_contents.py | 2 +-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index ca6f705..26dfb19 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -131,6 +131,7 @@ class BModesOutFile(File):
         s+='| - read, write, toDataFrame, keys'
         return s
 
+    @staticmethod
     def _get_modal_coefficients(x, y, deg=[2, 3, 4, 5, 6]):
         # Normalize x input
         xn = (x - x.min()) / (x.max() - x.min())
diff --git a/weio/hawc2_pc_file.py b/weio/hawc2_pc_file.py
index 74e69bd..e7a75c5 100644
--- a/weio/hawc2_pc_file.py
+++ b/weio/hawc2_pc_file.py
@@ -77,7 +77,7 @@ class HAWC2PCFile(File):
 
     @property
     def sets(self):
-        return self.pc_sets
+        return self.data.pc_sets
 
     def __repr__(self):
         cols=['Alpha_[deg]','Cl_[-]','Cd_[-]','Cm_[-]']
diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 5cee26a..f1e4e2b 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -451,10 +451,12 @@ class TurbSimFile(File):
         u, v, w = ts._longiline(iy0=iy0, iz0=iz0, removeMean=True)
         y = ts['y']
         z = ts['z']
+        t = ts['t']
+        fs = 1/(t[1]-t[0])
         diy=1
-        dy=y[iy]-y[iy0]
         # TODO
         iy = iy0+diy
+        dy=y[iy]-y[iy0]
         ud, vd, wd = ts._longiline(iy0=iy, iz0=iz0, removeMean=True)
         fc, coh_uu_y1 = sig.coherence(u,ud, fs=fs)
         _ , coh_vv_y1 = sig.coherence(v,vd, fs=fs)
diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 22aa3e4..840d0e9 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -275,7 +275,7 @@ class HTCSection(HTCContents):
         if isinstance(key, int):
             lst = [s for s in self if s.values[key] == value]
         elif isinstance(key, str):
-            lst = [s for s in self if key in s and s[key][0] == name]
+            lst = [s for s in self if key in s and s[key][0] == value]
         else:
             raise ValueError("Key argument must be int or str")
         if len(lst) == 1:
-- 
2.43.0


From 3736158ba85ff840cf06a74ea9e9886dca9bc81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 09/72] fix: ROSCO performance files can be written (undefined
 name in the header line)

---
 weio/rosco_performance_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 9a3a68f..8e5effc 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -191,6 +191,8 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
         txt_filename: str, optional
                         Desired output filename to print rotor performance data. Default is Cp_Ct_Cq.txt
     '''
+    import datetime
+    now = datetime.datetime.now()
     file = open(txt_filename,'w')
     # Headerlines
     file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
-- 
2.43.0


From 750bcccc1c0041d6a87b04b4c1e804bf048d420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 10/72] fix: writing OpenFAST binary output raises for
 unsupported file IDs instead of writing nothing

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index a8a3307..aeb94be 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -410,7 +410,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     # Data sanitization
     chanNames = list(chanNames)
     channels  = np.asarray(channels)
-    if chanUnits[0][0]!='(':
+    if chanUnits[0][:1]!='(':
         chanUnits = ['('+u+')' for u in chanUnits] # units surrounded by parenthesis to match OpenFAST convention
 
     nT, nChannelsWithTime = np.shape(channels)
@@ -446,7 +446,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     
     #Just available for fileID 
     if fileID != 2:
-        print("current version just works with FileID = 2")
+        raise NotImplementedError("current version just works with FileID = 2")
 
     else:
         with open(fileName,'wb') as fid:
-- 
2.43.0


From d9b5721a207407e74c9051b1d0f1f6c6b1d345b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 11/72] fix: htc files: import optional tools where they are
 used, unknown turbulence format

---
 weio/wetb/hawc2/htc_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 6848a7e..ad9f479 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -189,6 +189,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
         if txt[:10].encode().startswith(b'\xc3\xaf\xc2\xbb\xc2\xbf'):
             txt = txt[3:]
         if self.jinja_tags:
+            import jinja2
             template = jinja2.Template(txt)
             txt = template.render(**self.jinja_tags)
         return txt.replace("\r", "").split("\n")
@@ -308,6 +309,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
         if copy_turb_back:
             output_files += self.turbulence_files()
 
+        from wetb.hawc2.hawc2_pbs_file import HAWC2PBSFile
         return HAWC2PBSFile(hawc2_path, hawc2_cmd, self.filename, self.modelpath,
                             input_files, output_files,
                             queue, walltime)
@@ -419,6 +421,8 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
             files = [self.get('wind.mann.filename_%s' % comp, [None])[0] for comp in ['u', 'v', 'w']]
         elif self.wind.turb_format[0] == 2:
             files = [self.get('wind.flex.filename_%s' % comp, [None])[0] for comp in ['u', 'v', 'w']]
+        else:
+            raise ValueError('unknown turb_format: %s' % self.wind.turb_format[0])
         return [f for f in files if f]
 
     def res_file_lst(self):
@@ -456,6 +460,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
         self.save()
         htcfile = os.path.relpath(self.filename, self.modelpath)
         assert any([os.path.isfile(os.path.join(f, exe)) for f in [''] + os.environ['PATH'].split(";")]), exe
+        from wetb.utils.process_exec import pexec
         return pexec([exe, htcfile], self.modelpath)
 
     def simulate(self, exe, skip_if_up_to_date=False):
-- 
2.43.0


From bb7b632edcfd9ef3c8db12a8f5f128f40ed99dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 12/72] fix: Excel files can be written with current pandas
 (the writer is closed, on errors as well)

---
 weio/excel_file.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index df28931..1aa6632 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -48,12 +48,12 @@ class ExcelFile(File):
     #    return s
 
     def _write(self):
-        # Create a Pandas Excel writer using XlsxWriter as the engine.
-        writer = pd.ExcelWriter(self.filename, engine='xlsxwriter')
-        # Convert the dataframe to an XlsxWriter Excel object.
-        for k,_ in self.data.items():
-            df = self.data[k]
-            df.to_excel(writer, sheet_name=k, index=False)
+        # Create a Pandas Excel writer, closed (and saved) at the end of the block
+        with pd.ExcelWriter(self.filename) as writer:
+            # Convert the dataframe to an XlsxWriter Excel object.
+            for k,_ in self.data.items():
+                df = self.data[k]
+                df.to_excel(writer, sheet_name=k, index=False)
         # # Account info columns (set size)
         # worksheet.set_column('B:D', 20)
         # # Total formatting
@@ -72,8 +72,6 @@ class ExcelFile(File):
         #worksheet.conditional_format(color_range, {'type': 'bottom',
         #                                           'value': '5',
         #                                           'format': format1})
-        # Close the Pandas Excel writer and output the Excel file.
-        writer.save()
 
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
-- 
2.43.0


From f2cc4b20e39d0247e3d70e65127315868d73ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 13/72] fix: TDMS reader uses the current nptdms interface

---
 weio/tdms_file.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/weio/tdms_file.py b/weio/tdms_file.py
index d05e1a9..e3183db 100644
--- a/weio/tdms_file.py
+++ b/weio/tdms_file.py
@@ -19,14 +19,11 @@ class TDMSFile(File):
             raise Exception('Install the library nptdms to read this file')
 
         fh = TdmsFile(self.filename, read_metadata_only=False)
-        channels_address = list(fh.objects.keys())
-        channels_address = [ s.replace("'",'') for s in channels_address]
-        channel_keys= [ s.split('/')[1:]  for s in channels_address if len(s.split('/'))==3]
+        channels = [ch for group in fh.groups() for ch in group.channels()]
         # --- Setting up list of signals and times
         signals=[]
         times=[]
-        for i,ck in enumerate(channel_keys):
-            channel = fh.object(ck[0],ck[1])
+        for channel in channels:
             signals.append(channel.data)
             times.append  (channel.time_track())
 
@@ -47,7 +44,7 @@ class TDMSFile(File):
         time =times[0]
         signals = [time]+signals
         M = np.column_stack(signals)
-        colnames = ['Time_[s]'] + [ck[1] for ck in channel_keys]
+        colnames = ['Time_[s]'] + [ch.name for ch in channels]
         self['data'] =  pd.DataFrame(data = M, columns=colnames)
 
 #     def toString(self):
-- 
2.43.0


From 75466ec47ced939f500006c2febdf93eb4c0a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:53 +0000
Subject: [PATCH 14/72] fix: SubDyn summary: methods are added to the object,
 not to the class, and toJSON does not change Elements

---
 weio/fast_summary_file.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 86a75f2..2bcd610 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -1,6 +1,7 @@
 import numpy as np
 import pandas as pd
 from io import open
+from types import MethodType
 import os
 # Local 
 from .mini_yaml import yaml_read
@@ -72,7 +73,7 @@ class FASTSummaryFile(File):
         if self['module']=='SubDyn':
             raise Exception('This should not happen since class was added to subdyn object')
         #    dfs=subDynToDataFrame(self)
-        return dfs
+        raise NotImplementedError('This summary file format is not yet supported')
 
     def toGraph(self):
         from .fast_input_file_graph import fastToGraph
@@ -154,9 +155,9 @@ def readSubDynSum(self):
         """ return Guyan and CB modes"""
         if maxDisp is None:
             #compute max disp such as it's 10% of maxdimension
-            dx = np.max(self['X'])-np.min(self['X'])
-            dy = np.max(self['Y'])-np.min(self['Y'])
-            dz = np.max(self['Z'])-np.min(self['Z'])
+            dx = np.max(data['X'])-np.min(data['X'])
+            dy = np.max(data['Y'])-np.min(data['Y'])
+            dz = np.max(data['Z'])-np.min(data['Z'])
             maxDisp = np.max([dx,dy,dz])*0.1
 
         # NOTE: DOF have been reindexed -1
@@ -185,8 +186,8 @@ def readSubDynSum(self):
 
         dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
 
-        Nodes    = self['Nodes']
-        Elements = self['Elements']
+        Nodes    = data['Nodes']
+        Elements = data['Elements'].copy()
         Elements[:,0]-=1
         Elements[:,1]-=1
         Elements[:,2]-=1
@@ -252,11 +253,11 @@ def readSubDynSum(self):
         df = pd.concat((dfZXY, df1, df2, df1d, df2d), axis=1)
         return df 
     
-    # adding method to class dynamically to give it a "SubDyn Summary flavor"
-    setattr(FASTSummaryFile, 'NodesDisp'  , NodesDisp) 
-    setattr(FASTSummaryFile, 'toDataFrame', subDynToDataFrame)
-    setattr(FASTSummaryFile, 'toJSON'     , subDynToJson)
-    setattr(FASTSummaryFile, 'getModes'   , getModes)
+    # adding method to this object dynamically to give it a "SubDyn Summary flavor"
+    setattr(self, 'NodesDisp'  , MethodType(NodesDisp, self))
+    setattr(self, 'toDataFrame', MethodType(subDynToDataFrame, self))
+    setattr(self, 'toJSON'     , MethodType(subDynToJson, self))
+    setattr(self, 'getModes'   , MethodType(getModes, self))
 
     return self
 
-- 
2.43.0


From 121a5796cb424ca989e857c09b31e1655728dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:33 +0000
Subject: [PATCH 15/72] fix: Tecplot and VTK files can be read and written with
 the remembered filename

---
 weio/tecplot_file.py | 2 +-
 weio/vtk_file.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 1c9aa2d..38f3567 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -174,7 +174,7 @@ class TecplotFile(File):
             raise EmptyFileError('File is empty:',self.filename)
 
         try:
-            read_tecplot(filename,self)
+            read_tecplot(self.filename,self)
         except BrokenFormatError:
             raise 
         except WrongFormatError:
diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index e3ed2f7..df120b1 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -97,7 +97,7 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
-        with open(filename, "rb") as f:
+        with open(self.filename, "rb") as f:
             # initialize output data
             # skip header and title
             f.readline()
@@ -170,7 +170,7 @@ class VTKFile(File):
                 if len(values.shape) == 2 and values.shape[1] == 2:
                     data[k] = pad(data[k])
 
-        with open(filename, "wb") as f:
+        with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
             f.write("written \n".encode("utf-8"))
             f.write(("BINARY\n" if binary else "ASCII\n").encode("utf-8"))
-- 
2.43.0


From 8984514ab59df766124539398c08e76b5aebd5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 16/72] fix: linearization and CACTUS writers raise instead of
 replacing the file by an empty one

---
 weio/cactus_element_file.py     | 7 +------
 weio/cactus_file.py             | 7 +------
 weio/fast_linearization_file.py | 7 +------
 3 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index d6081fe..5340bb2 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -86,8 +86,7 @@ class CactusElementFile(File):
 
     def _write(self):
         """ """
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        raise NotImplementedError('Writing of CACTUS files is not implemented')
 
     def toDataFrame(self):
         #cols=['Alpha_[deg]','Cl_[-]','Cd_[-]','Cm_[-]']
@@ -96,10 +95,6 @@ class CactusElementFile(File):
         return 
 
 
-    def toString(self):
-        s=''
-        return s
-
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
         return s
diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 857bf37..5d968be 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -365,8 +365,7 @@ class CactusFile(File):
 
     def _write(self):
         """ """
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        raise NotImplementedError('Writing of CACTUS files is not implemented')
 
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
@@ -375,10 +374,6 @@ class CactusFile(File):
         return df
 
 
-    def toString(self):
-        s=''
-        return s
-
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
         return s
diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index c7a99fc..26f25de 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -150,13 +150,8 @@ class FASTLinearizationFile(File):
                         self['EDDOF'] = line[5:].split()
                         self['M']     = readMat(f, 24, 24)
 
-    def toString(self):
-        s=''
-        return s
-
     def _write(self):
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        raise NotImplementedError('Writing of linearization files is not implemented')
 
     def short_descr(self,slist):
         def shortname(s):
-- 
2.43.0


From ec7640125df3c3d7ee60bdfc340d0977d094c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:50 +0000
Subject: [PATCH 17/72] fix: read passes the reading options on when a format
 is given; fileFormats returns the import errors on later calls as well

---
 weio/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index cc31316..8721d25 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -12,15 +12,19 @@ class UserFormatImportError(Exception):
 
 
 _FORMATS=None
+_ERRORS=[]
 
 def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     """ return list of fileformats supported by the library
     If userpath is provided, 
 
     """
-    global _FORMATS
+    global _FORMATS, _ERRORS
     if _FORMATS is not None:
-        return _FORMATS
+        if ignoreErrors:
+            return _FORMATS, _ERRORS
+        else:
+            return _FORMATS
     # --- Library formats
     from .fast_input_file         import FASTInputFile
     from .fast_output_file        import FASTOutputFile
@@ -117,6 +121,7 @@ def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     formats = np.asarray(formats)[np.argsort(priorities, kind='stable')]
 
     _FORMATS=formats
+    _ERRORS=errors
     if ignoreErrors:
         return formats, errors
     else:
@@ -246,7 +251,7 @@ def read(filename, fileformat=None, **kwargs):
         fileformat,F = detectFormat(filename, **kwargs)
     # Reading the file with the appropriate class if necessary
     if not isinstance(F, fileformat.constructor):
-        F=fileformat.constructor(filename=filename)
+        F=fileformat.constructor(filename=filename, **kwargs)
     return F
 
 
-- 
2.43.0


From e657f1365ab11b9ff500298e651b86514402d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:09 +0000
Subject: [PATCH 18/72] fix: FLEX formats: extensions that detection can match,
 and a format name of its own for the doc file

---
 weio/flex_blade_file.py   | 2 +-
 weio/flex_doc_file.py     | 4 ++--
 weio/flex_profile_file.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/flex_blade_file.py b/weio/flex_blade_file.py
index 4442ffa..3cf79ed 100644
--- a/weio/flex_blade_file.py
+++ b/weio/flex_blade_file.py
@@ -16,7 +16,7 @@ class FLEXBladeFile(File):
 
     @staticmethod
     def defaultExtensions():
-        return ['.bld','.bla','.00X'] #'.001 etc..'
+        return ['.bld','.bla','.00*'] #'.001 etc..'
 
     @staticmethod
     def formatName():
diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index aeac114..86b004a 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -14,11 +14,11 @@ class FLEXDocFile(File):
 
     @staticmethod
     def defaultExtensions():
-        return ['.out','doc']
+        return ['.out','.doc']
 
     @staticmethod
     def formatName():
-        return 'FLEX WaveKin file'
+        return 'FLEX doc file'
 
     def _read(self):
         with open(self.filename, 'r', errors="surrogateescape") as f:
diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 17add9f..c557136 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -42,7 +42,7 @@ class FLEXProfileFile(File):
 
     @staticmethod
     def defaultExtensions():
-        return ['.pro','.00X'] #'.001 etc..'
+        return ['.pro','.00*'] #'.001 etc..'
 
     @staticmethod
     def formatName():
-- 
2.43.0


From 78d032f07d977cce384ff9e8efcc20d8f72a4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:09 +0000
Subject: [PATCH 19/72] fix: HTCFile.input_files lists the files in the order
 of the htc file, not in set order

---
 weio/wetb/hawc2/htc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index ad9f479..0c04c9a 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -379,7 +379,7 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
                     return f
             else:
                 return f
-        return [fix_path_case(f) for f in set(files) if f]
+        return [fix_path_case(f) for f in OrderedDict.fromkeys(files) if f]
 
     def output_files(self):
         self.contents  # load if not loaded
-- 
2.43.0


From 28263c87ce67c1eefa425b1acda7289c5374fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:09 +0000
Subject: [PATCH 20/72] fix: user formats are registered in alphabetical order,
 not in directory order

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 8721d25..269b742 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -145,7 +145,7 @@ def userFileClasses(userpath=None, ignoreErrors=False, verbose=True):
         import glob
         from importlib.machinery import SourceFileLoader
         import inspect
-        pyfiles = glob.glob(os.path.join(userpath,'*.py'))
+        pyfiles = sorted(glob.glob(os.path.join(userpath,'*.py')))
         # Loop through files, look for classes of the form ClassNameFile, 
         for f in pyfiles:
             if f in ['__init__.py']:
-- 
2.43.0


From 5df61aa173e566f3a7fe80234ec70bdc60b8beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:09 +0000
Subject: [PATCH 21/72] fix: missing RAAW channels are added in the order of
 the channel list, not in set order

---
 weio/raawmat_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index 25a5fa0..df9fbc7 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -66,8 +66,8 @@ def matfile(path_file,output='pandas',path_key=None):
         if mfile['DataCell'].size > (len(list_50hz)+len(list_1hz)):
             print('WARNING: channel size in file is greater than size of channel names lists!')
         # find any missing channels from file
-        missing50hz = list(set(list_50hz)-set(names_50hz))
-        missing1hz = list(set(list_1hz)-set(names_1hz))
+        missing50hz = [c for c in dict.fromkeys(list_50hz) if c not in names_50hz]
+        missing1hz = [c for c in dict.fromkeys(list_1hz) if c not in names_1hz]
 
     if output == 'xarray':
         import xarray as xr
-- 
2.43.0


From 2075e3ef2419afb7674539890b495e72719aa658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:09 +0000
Subject: [PATCH 22/72] fix: HTCFileSet lists its files in sorted order, not in
 directory order

---
 weio/wetb/hawc2/htc_file_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_file_set.py b/weio/wetb/hawc2/htc_file_set.py
index 990f52b..0f7ab43 100644
--- a/weio/wetb/hawc2/htc_file_set.py
+++ b/weio/wetb/hawc2/htc_file_set.py
@@ -20,7 +20,7 @@ class HTCFileSet():
             else:
                 if not os.path.isabs(htc_path):
                     htc_path = os.path.join(model_path, htc_path)
-                for filename in glob.iglob(htc_path, recursive=True):
+                for filename in sorted(glob.iglob(htc_path, recursive=True)):
                     self.htc_files.append(filename)
 
     def pbs_files(self, hawc2_path, hawc2_cmd, queue='workq', walltime=None,
-- 
2.43.0


From 8dcdbee10b37777e0f158362f5c0a99dbfdc5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 23/72] fix: CactusFile.toDataFrame inserts columns in a copy
 of the time data (second call failed)

---
 weio/cactus_file.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 5d968be..f03e9b9 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -183,7 +183,7 @@ class CactusFile(File):
     def timeDataToOpenFAST(self, df):
         """ Convert to similar labels as OpenFAST"""
         if df is None:
-            return None
+            return None, 0
         nRot      = self['configinputs']['nr']
         nPerRot   = self['configinputs']['nti']
         TSR       = self.TSR
@@ -270,7 +270,7 @@ class CactusFile(File):
     def elemDataToOpenFAST(self, dfElem,  df, c=0, dfDS=None, alphaSign=-1):
         """ Convert to similar lables as openfast """
         if dfElem is None:
-            return df
+            return df, c
 
         U=self.U
         R=self.R
@@ -369,7 +369,10 @@ class CactusFile(File):
 
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
-        df,c = self.timeDataToOpenFAST(df = self['dfTime'])
+        df = self['dfTime']
+        if df is not None:
+            df = df.copy() # NOTE: columns are inserted below
+        df,c = self.timeDataToOpenFAST(df = df)
         df,c = self.elemDataToOpenFAST(dfElem=self['dfElem'],  df=df, c=c, dfDS=self['dfDS'], alphaSign=alphaSign)
         return df
 
-- 
2.43.0


From e6eea536e1d20accb2ea8ac662e26ae241fc6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 24/72] fix: writing a CSVFile does not change its separator

---
 weio/csv_file.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 5e8197c..9cdab73 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -254,25 +254,26 @@ class CSVFile(File):
 
     def _write(self):
         # --- Safety
-        if self.sep==r'\s+' or self.sep=='':
-            self.sep='\t'
+        sep = self.sep
+        if sep==r'\s+' or sep=='':
+            sep='\t'
         # Write
         if len(self.header)>0:
             with open(self.filename, 'w', encoding='utf-8') as f:
                 f.write('\n'.join(self.header)+'\n')
             with open(self.filename, 'a', encoding='utf-8') as f:
                 try:
-                    self.data.to_csv(f,   sep=self.sep,     index=False,header=False, line_terminator='\n')
+                    self.data.to_csv(f,   sep=sep,     index=False,header=False, line_terminator='\n')
                 except TypeError:
                     print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
                     s=''
                     vals=self.data.values
                     for l in vals:
-                        sLine=(self.sep).join([str(v) for v in l])
+                        sLine=(sep).join([str(v) for v in l])
                         s+=sLine+'\n'
                     f.write(s)
         else:
-            self.data.to_csv(self.filename,sep=self.sep,index=False)
+            self.data.to_csv(self.filename,sep=sep,index=False)
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
-- 
2.43.0


From 95a8b5816f68fc99361d5df74bf6c6324952b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 25/72] fix: FASTInputFile.keys does not change the object

---
 weio/fast_input_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index af95363..30936c3 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -189,8 +189,7 @@ class FASTInputFileBase(File):
         self.filename = filename
 
     def keys(self):
-        self.labels = [ d['label'] for i,d in enumerate(self.data) if (not d['isComment']) and (i not in self._IComment)]
-        return self.labels
+        return [ d['label'] for i,d in enumerate(self.data) if (not d['isComment']) and (i not in self._IComment)]
 
     def getID(self,label):
         i=self.getIDSafe(label)
-- 
2.43.0


From a3dc801f7bd2e9ff29dd247ee7e0bf0043216b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 26/72] fix: FASTOutputFile.toDataFrame does not rename the
 columns of the object data

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index aeb94be..60d1b24 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -124,7 +124,7 @@ class FASTOutputFile(File):
         else:
             cols=self.info['attribute_names']
         if isinstance(self.data, pd.DataFrame):
-            df= self.data
+            df = self.data.copy()
             df.columns=cols
         else:
             df = pd.DataFrame(data=self.data,columns=cols)
-- 
2.43.0


From 21ca55d42bbb92d00391281d6004ab2841004453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 27/72] fix: HAWC2DatFile.toDataFrame does not change the
 channel names of the object

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 3a3bab4..f45aaaf 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -57,7 +57,7 @@ class HAWC2DatFile(File):
         import re
 
         # Simplify output names
-        names=self.info['attribute_names']
+        names=list(self.info['attribute_names'])
         for i,desc in enumerate(self.info['attribute_descr']):
             elem = re.findall(r'E-nr:\s*(\d+)', desc)
             zrel = re.findall(r'Z-rel:\s*(\d+.\d+)', desc)
-- 
2.43.0


From 0c49357a2eb39b4bbe03fef1965d5e885d0c1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 28/72] fix: StFile.save does not change the object

---
 weio/wetb/hawc2/st_file.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index b5b0d55..e6f61fd 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -135,18 +135,20 @@ class StFile(object):
         """
 
         # when creating empty st object, cols is not set yet
-        if not hasattr(self, 'cols'):
+        if hasattr(self, 'cols'):
+            cols = self.cols
+        else:
             if self.main_data_sets[1][1].shape[1]==19:
-                self.cols = stc.split()
+                cols = stc.split()
             elif self.main_data_sets[1][1].shape[1]==30:
-                self.cols = fpm.split()
+                cols = fpm.split()
             else:
                 c = self.main_data_sets[1][1].shape[1]
                 raise TypeError(f'St input needs 19 (iso) or 30 (aniso/fpm) cols, not {c}')
 
         colwidth = len(precision % 1)
-        sep = '=' * colwidth * len(self.cols) + '\n'
-        colhead = ''.join([k.center(colwidth) for k in self.cols]) + '\n'
+        sep = '=' * colwidth * len(cols) + '\n'
+        colhead = ''.join([k.center(colwidth) for k in cols]) + '\n'
 
         nsets = len(self.main_data_sets)
         # fails if dirname is empty string
-- 
2.43.0


From ec2538a67e0f4fb8b45ea96b37843a3f376b0eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 29/72] fix: TurbSimFile line and plane extraction with
 removeMean does not change the box

---
 weio/turbsim_file.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index f1e4e2b..7c66bd6 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -248,9 +248,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,iz0]
         w = ts['u'][2,:,iy0,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _latline(ts, ix0=None, iz0=None, removeMean=False):
@@ -264,9 +264,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,:,iz0]
         w = ts['u'][2,ix0,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _vertline(ts, ix0=None, iy0=None, removeMean=False):
@@ -280,9 +280,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,iy0,:]
         w = ts['u'][2,ix0,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
@@ -301,9 +301,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,:,iz0]
         w = ts['u'][2,:,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def verticalPlane(ts, y=None, iy0=None, removeMean=False):
@@ -319,9 +319,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,:]
         w = ts['u'][2,:,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From fa618e83e90141cbd149b4bb2dc4406f96fefe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:38 +0000
Subject: [PATCH 30/72] fix: writing a TurbSimFile does not add entries to it

---
 weio/turbsim_file.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 7c66bd6..73177f9 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -119,13 +119,10 @@ class TurbSimFile(File):
             raise Exception('No filename provided')
 
         nDim, nt, ny, nz = self['u'].shape
-        if 'uTwr' not in self.keys() :
-            self['uTwr']=np.zeros((3,nt,0))
-        if 'ID' not in self.keys() :
-            self['ID']=7
+        tsTwr  = self['uTwr'] if 'uTwr' in self.keys() else np.zeros((3,nt,0))
+        ID     = self['ID']   if 'ID'   in self.keys() else 7
 
-        _, _, nTwr = self['uTwr'].shape
-        tsTwr  = self['uTwr']
+        _, _, nTwr = tsTwr.shape
         ts     = self['u']
         intmin = -32768
         intrng = 65535
@@ -156,7 +153,7 @@ class TurbSimFile(File):
         zHub,uHub, bHub = self.hubValues()
 
         with open(self.filename, mode='wb') as f:            
-            f.write(struct.pack('<h4l', self['ID'], nz, ny, nTwr, nt))
+            f.write(struct.pack('<h4l', ID, nz, ny, nTwr, nt))
             f.write(struct.pack('<6f', dz, dy, dt, uHub, zHub, z0)) # NOTE uHub, zHub maybe not used
             f.write(struct.pack('<6f', scl[0],off[0],scl[1],off[1],scl[2],off[2]))
             f.write(struct.pack('<l' , len(info)))
-- 
2.43.0


From e5e46ff6cb1690407f54dc465e9283d1ccb0747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:38 +0000
Subject: [PATCH 31/72] fix: writing a VTKFile does not change its point and
 cell data

---
 weio/vtk_file.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index df120b1..e8a7ca3 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -160,15 +160,14 @@ class VTKFile(File):
         else:
             points = self.points
 
-        if self.point_data:
-            for name, values in self.point_data.items():
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    self.point_data[name] = pad(values)
+        def pad2D(values):
+            if len(values.shape) == 2 and values.shape[1] == 2:
+                return pad(values)
+            return values
 
-        for name, data in self.cell_data.items():
-            for k, values in enumerate(data):
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    data[k] = pad(data[k])
+        # NOTE: 2D vectors are padded for the output, the data of the object is left unchanged
+        point_data = {name: pad2D(values) for name, values in self.point_data.items()} if self.point_data else {}
+        cell_data  = {name: [pad2D(values) for values in data] for name, data in self.cell_data.items()}
 
         with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
@@ -181,16 +180,16 @@ class VTKFile(File):
             _write_cells(f, self.cells, binary)
 
             # write point data
-            if self.point_data:
+            if point_data:
                 num_points = self.points.shape[0]
                 f.write("POINT_DATA {}\n".format(num_points).encode("utf-8"))
-                _write_field_data(f, self.point_data, binary)
+                _write_field_data(f, point_data, binary)
 
             # write cell data
-            if self.cell_data:
+            if cell_data:
                 total_num_cells = sum(len(c.data) for c in self.cells)
                 f.write("CELL_DATA {}\n".format(total_num_cells).encode("utf-8"))
-                _write_field_data(f, self.cell_data, binary)
+                _write_field_data(f, cell_data, binary)
 
 
     def __repr__(self):
-- 
2.43.0


From e11ea4a82358df68a898c16e2e1e5f0cfe913f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:38 +0000
Subject: [PATCH 32/72] fix: ADPolarFile is written from a copy of its entries
 (labels were lost when writing failed)

---
 weio/fast_input_file.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 30936c3..d0aac54 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1571,21 +1571,19 @@ class ADPolarFile(FASTInputFileBase):
         else:
             self._writeSanityChecks()
             Labs=['Re','Ctrl','UserProp','alpha0','alpha1','alpha2','eta_e','C_nalpha','T_f0','T_V0','T_p','T_VL','b1','b2','b5','A1','A2','A5','S1','S2','S3','S4','Cn1','Cn2','St_sh','Cd0','Cm0','k0','k1','k2','k3','k1_hat','x_cp_bar','UACutout','filtCutOff','InclUAdata','NumAlf','AFCoeff']
-            # Store all labels
-            AllLabels=[self.data[i]['label'] for i in range(len(self.data))]
-            # Removing lab Offset - TODO TEMPORARY HACK
+            # Removing lab Offset, on a copy of the entries
+            data=[dict(d) for d in self.data]
             for iTab in range(nTabs):
                 labOffset='_{}'.format(iTab+1)
                 for labRaw in Labs:
                     i = self.getIDSafe(labRaw+labOffset)
                     if i>0:
-                        self.data[i]['label'] = labRaw
+                        data[i]['label'] = labRaw
+            raw = FASTInputFileBase()
+            raw.setData(filename=self.filename, data=data, hasNodal=self.hasNodal, module=self.module)
             # Write
             with open(self.filename,'w') as f:
-                f.write(self.toString())
-            # Restore labels 
-            for i,labFull in enumerate(AllLabels):
-                self.data[i]['label'] = labFull
+                f.write(raw.toString())
 
     def _toDataFrame(self):
         dfs = FASTInputFileBase._toDataFrame(self)
-- 
2.43.0


From 7039b666d302dbf528a91d5cfdb9b899612600ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:04 +0000
Subject: [PATCH 33/72] fix: writing a FASTInputDeck does not change the
 filenames stored in the deck

---
 weio/fast_input_deck.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 1153ca5..8469577 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -8,6 +8,7 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 import os
+import copy
 import numpy as np
 import re
 import pandas as pd
@@ -348,7 +349,7 @@ class FASTInputDeck(dict):
         basename = os.path.splitext(os.path.basename(filename))[0]
 
 
-        fst = self.fst_vt['Fst']
+        fst = copy.deepcopy(self.fst_vt['Fst']) # NOTE: the filenames are only changed in what is written
 
         # Filenames
         filename_ED     = os.path.join(directory,prefix+'ED'+suffix+'.dat')      if fst['CompElast']>0   else 'none'
@@ -379,7 +380,7 @@ class FASTInputDeck(dict):
         fst.write(filename)
 
 
-        ED =  self.fst_vt['ElastoDyn']
+        ED = copy.deepcopy(self.fst_vt['ElastoDyn'])
         if fst['CompElast']>0:
             ED['TwrFile'] = '"' + os.path.basename(filename_ED_twr)+ '"'
             self.fst_vt['ElastoDynTower'].write(filename_ED_twr)
@@ -395,7 +396,7 @@ class FASTInputDeck(dict):
             self.fst_vt['ElastoDynBlade'].write(filename_ED_bld)
 
         elif fst['CompElast']==2:
-            BD = self.fst_vt['BeamDyn'] 
+            BD = copy.deepcopy(self.fst_vt['BeamDyn'])
             BD['BldFile'] = '"'+os.path.basename(filename_BD_bld)+'"'
             self.fst_vt['BeamDynBlade'].write(filename_BD_bld)  # TODO TODO pick up the proper blade file!
             BD.write(filename_BD)
-- 
2.43.0


From 298d417564eefee7daff5875607edb8d6f58c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 34/72] fix: read_tecplot does not accumulate the data of all
 files in its default argument

---
 weio/tecplot_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 38f3567..bb7d953 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -85,14 +85,18 @@ def _process_merged_line(line, section, dict_out):
         print('Processing section {}:'.format(section),line)
         dict_out[section]=line
 
-def read_tecplot(filename, dict_out={}):
+def read_tecplot(filename, dict_out=None):
     """ Reads a tecplot file
     Limited support:
        - title optional
        - variables mandatory
        - Lines may be continued to next line, stopping when a predefined keyword is detected
     For now, assumes that only one section of numerical data is present
+
+    dict_out: optional output dictionary, where the data are added
     """
+    if dict_out is None:
+        dict_out={}
 
     merged_line=''
     current_section=''
-- 
2.43.0


From 2de74bfdc6aa449e1c36dc26b3d88c07bfc055db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 35/72] fix: the vtk write function does not change the mesh it
 is given

---
 weio/vtk_file.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index e8a7ca3..a0fb62a 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1168,15 +1168,14 @@ def write(filename, mesh, binary=True):
     else:
         points = mesh.points
 
-    if mesh.point_data:
-        for name, values in mesh.point_data.items():
-            if len(values.shape) == 2 and values.shape[1] == 2:
-                mesh.point_data[name] = pad(values)
+    def pad2D(values):
+        if len(values.shape) == 2 and values.shape[1] == 2:
+            return pad(values)
+        return values
 
-    for name, data in mesh.cell_data.items():
-        for k, values in enumerate(data):
-            if len(values.shape) == 2 and values.shape[1] == 2:
-                data[k] = pad(data[k])
+    # NOTE: 2D vectors are padded for the output, the mesh is left unchanged
+    point_data = {name: pad2D(values) for name, values in mesh.point_data.items()} if mesh.point_data else {}
+    cell_data  = {name: [pad2D(values) for values in data] for name, data in mesh.cell_data.items()}
 
     with open(filename, "wb") as f:
         f.write(b"# vtk DataFile Version 4.2\n")
@@ -1189,16 +1188,16 @@ def write(filename, mesh, binary=True):
         _write_cells(f, mesh.cells, binary)
 
         # write point data
-        if mesh.point_data:
+        if point_data:
             num_points = mesh.points.shape[0]
             f.write("POINT_DATA {}\n".format(num_points).encode("utf-8"))
-            _write_field_data(f, mesh.point_data, binary)
+            _write_field_data(f, point_data, binary)
 
         # write cell data
-        if mesh.cell_data:
+        if cell_data:
             total_num_cells = sum(len(c.data) for c in mesh.cells)
             f.write("CELL_DATA {}\n".format(total_num_cells).encode("utf-8"))
-            _write_field_data(f, mesh.cell_data, binary)
+            _write_field_data(f, cell_data, binary)
 
 
 def _write_points(f, points, binary):
-- 
2.43.0


From 581212ec1724f6b9385f9a6cacf112fbd26ebd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 36/72] fix: HTCFile.pbs_file does not extend the lists of
 files it is given

---
 weio/wetb/hawc2/htc_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/htc_file.py b/weio/wetb/hawc2/htc_file.py
index 0c04c9a..8de0e19 100644
--- a/weio/wetb/hawc2/htc_file.py
+++ b/weio/wetb/hawc2/htc_file.py
@@ -301,11 +301,11 @@ class HTCFile(HTCContents, HTCDefaults, HTCExtensions):
         else:
             copy_turb_fwd, copy_turb_back = copy_turb
 
-        input_files = input_files or self.input_files()
+        input_files = list(input_files or self.input_files())
         if copy_turb_fwd:
             input_files += [f for f in self.turbulence_files() if os.path.isfile(f)]
 
-        output_files = output_files or self.output_files()
+        output_files = list(output_files or self.output_files())
         if copy_turb_back:
             output_files += self.turbulence_files()
 
-- 
2.43.0


From fb79a9a10014b1bf966baa88dfa7fda3704b7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 37/72] fix: the conversions of CactusFile to OpenFAST labels
 do not change the data frame they are given

---
 weio/cactus_file.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index f03e9b9..47bcf59 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -184,6 +184,7 @@ class CactusFile(File):
         """ Convert to similar labels as OpenFAST"""
         if df is None:
             return None, 0
+        df = df.copy() # NOTE: columns are inserted below
         nRot      = self['configinputs']['nr']
         nPerRot   = self['configinputs']['nti']
         TSR       = self.TSR
@@ -271,6 +272,7 @@ class CactusFile(File):
         """ Convert to similar lables as openfast """
         if dfElem is None:
             return df, c
+        df = df.copy() # NOTE: columns are inserted below
 
         U=self.U
         R=self.R
@@ -369,10 +371,7 @@ class CactusFile(File):
 
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
-        df = self['dfTime']
-        if df is not None:
-            df = df.copy() # NOTE: columns are inserted below
-        df,c = self.timeDataToOpenFAST(df = df)
+        df,c = self.timeDataToOpenFAST(df = self['dfTime'])
         df,c = self.elemDataToOpenFAST(dfElem=self['dfElem'],  df=df, c=c, dfDS=self['dfDS'], alphaSign=alphaSign)
         return df
 
-- 
2.43.0


From b33c1f41039471a5324753c09450f637fe92d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:12 +0000
Subject: [PATCH 38/72] fix: NetCDFFile loads the data and closes the file when
 reading

---
 weio/netcdf_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/netcdf_file.py b/weio/netcdf_file.py
index e54e412..d90de9f 100644
--- a/weio/netcdf_file.py
+++ b/weio/netcdf_file.py
@@ -31,7 +31,8 @@ class NetCDFFile(File):
         except:
             raise Exception('Python module `xarray` not installed')
 
-        self.data=xr.open_dataset(self.filename)
+        with xr.open_dataset(self.filename) as ds:
+            self.data=ds.load()
 
     def _write(self):
         self.data.to_netcdf(self.filename)
-- 
2.43.0


From ec987c276bd9d2f38960abb2d2513105eae06243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:12 +0000
Subject: [PATCH 39/72] fix: ExcelFile closes the file it reads

---
 weio/excel_file.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index 1aa6632..3d600b6 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -28,20 +28,20 @@ class ExcelFile(File):
             xls = pd.ExcelFile(self.filename,  engine='openpyxl')
         except:
             xls = pd.ExcelFile(self.filename)
-        dfs = {}
-        for sheet_name in xls.sheet_names:
-            # Reading sheet
-            df = xls.parse(sheet_name, header=None)
-            # TODO detect sub tables
-            # Dropping empty rows and cols
-            df.dropna(how='all',axis=0,inplace=True)
-            df.dropna(how='all',axis=1,inplace=True)
-            #print(df.shape)
-            if df.shape[0]>0:
-                # Setting first row as header
-                df=df.rename(columns=df.iloc[0]).drop(df.index[0]).reset_index(drop=True)
-                #print(df)
-                self.data[sheet_name]=df
+        with xls:
+            for sheet_name in xls.sheet_names:
+                # Reading sheet
+                df = xls.parse(sheet_name, header=None)
+                # TODO detect sub tables
+                # Dropping empty rows and cols
+                df.dropna(how='all',axis=0,inplace=True)
+                df.dropna(how='all',axis=1,inplace=True)
+                #print(df.shape)
+                if df.shape[0]>0:
+                    # Setting first row as header
+                    df=df.rename(columns=df.iloc[0]).drop(df.index[0]).reset_index(drop=True)
+                    #print(df)
+                    self.data[sheet_name]=df
 
     #def toString(self):
     #    s=''
-- 
2.43.0


From 96b835a52af1e2652b21281228fec819b704947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:12 +0000
Subject: [PATCH 40/72] fix: the ROSCO performance writer closes the file when
 writing fails

---
 weio/rosco_performance_file.py | 71 +++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 36 deletions(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 8e5effc..9b794eb 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -193,48 +193,47 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
     '''
     import datetime
     now = datetime.datetime.now()
-    file = open(txt_filename,'w')
-    # Headerlines
-    file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
-    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(now.strftime('%b-%d-%y')))
-
-    # Pitch angles, TSR, and wind speed
-    file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
-    for i in range(len(pitch)):
-        file.write('{:0.4}   '.format(pitch[i]))
-    file.write('\n# TSR vector, {} entries - y axis (matrix rows) (-)\n'.format(len(TSR)))
-    for i in range(len(TSR)):
-        file.write('{:0.4}    '.format(TSR[i]))
-    if WS is not None:
-        file.write('\n# Wind speed vector - z axis (m/s)\n')
-        for i in range(len(WS)):
-            file.write('{:0.4}    '.format(WS[i]))
-        file.write('\n')
+    with open(txt_filename,'w') as file:
+        # Headerlines
+        file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
+        file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(now.strftime('%b-%d-%y')))
+
+        # Pitch angles, TSR, and wind speed
+        file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
+        for i in range(len(pitch)):
+            file.write('{:0.4}   '.format(pitch[i]))
+        file.write('\n# TSR vector, {} entries - y axis (matrix rows) (-)\n'.format(len(TSR)))
+        for i in range(len(TSR)):
+            file.write('{:0.4}    '.format(TSR[i]))
+        if WS is not None:
+            file.write('\n# Wind speed vector - z axis (m/s)\n')
+            for i in range(len(WS)):
+                file.write('{:0.4}    '.format(WS[i]))
+            file.write('\n')
     
-    # Cp
-    file.write('\n# Power coefficient\n\n')
-    for i in range(len(TSR)):
-        for j in range(len(pitch)):
-            file.write('{0:.6f}   '.format(CP[i,j]))
+        # Cp
+        file.write('\n# Power coefficient\n\n')
+        for i in range(len(TSR)):
+            for j in range(len(pitch)):
+                file.write('{0:.6f}   '.format(CP[i,j]))
+            file.write('\n')
         file.write('\n')
-    file.write('\n')
     
-    # Ct
-    file.write('\n#  Thrust coefficient\n\n')
-    for i in range(len(TSR)):
-        for j in range(len(pitch)):
-            file.write('{0:.6f}   '.format(CT[i,j]))
+        # Ct
+        file.write('\n#  Thrust coefficient\n\n')
+        for i in range(len(TSR)):
+            for j in range(len(pitch)):
+                file.write('{0:.6f}   '.format(CT[i,j]))
+            file.write('\n')
         file.write('\n')
-    file.write('\n')
     
-    # Cq
-    file.write('\n# Torque coefficient\n\n')
-    for i in range(len(TSR)):
-        for j in range(len(pitch)):
-            file.write('{0:.6f}   '.format(CQ[i,j]))
+        # Cq
+        file.write('\n# Torque coefficient\n\n')
+        for i in range(len(TSR)):
+            for j in range(len(pitch)):
+                file.write('{0:.6f}   '.format(CQ[i,j]))
+            file.write('\n')
         file.write('\n')
-    file.write('\n')
-    file.close()
 
 
 
-- 
2.43.0


From f18e8c6a8307b468e2baf56b9b76c2f61235791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:12 +0000
Subject: [PATCH 41/72] fix: ReadHawc2 closes its files when reading fails

---
 weio/wetb/hawc2/Hawc2io.py | 39 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 192ab50..739f8e7 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -80,9 +80,8 @@ class ReadHawc2(object):
         # read *.sel hawc2 output file for result info
         if self.FileName.lower().endswith('.sel'):
             self.FileName = self.FileName[:-4]
-        fid = opent(self.FileName + '.sel', 'r')
-        Lines = fid.readlines()
-        fid.close()
+        with opent(self.FileName + '.sel', 'r') as fid:
+            Lines = fid.readlines()
         if Lines[0].lower().find('bhawc')>=0:
             # --- Find line with scan info
             iLine=0
@@ -173,8 +172,8 @@ class ReadHawc2(object):
         except IOError:
             print("can't finde sensor file for FLEX format")
             return
-        Lines = fid.readlines()
-        fid.close()
+        with fid:
+            Lines = fid.readlines()
         # reads channel info (name, unit and description)
         self.NrCh = 0
         Name = []
@@ -193,20 +192,19 @@ class ReadHawc2(object):
             Description.append(temp.strip())
         self.ChInfo = [Name, Unit, Description]
         # read general info from *.int file
-        fid = open(self.FileName, 'rb')
-        fid.seek(4 * 19)
-        if not np.fromfile(fid, 'int32', 1) == self.NrCh:
-            print("number of sensors in sensor file and data file are not consisten")
-        fid.seek(4 * (self.NrCh) + 4, 1)
-        self.Version = np.fromfile(fid, 'int32',1)[0]
-        time_start, time_step = np.fromfile(fid, 'f', 2)
-        self.Freq = 1 / time_step
-        self.ScaleFactor = np.fromfile(fid, 'f', self.NrCh)
-        fid.seek(2 * 4 * self.NrCh + 48 * 2)
-        self.NrSc = int(len(np.fromfile(fid, 'int16')) / self.NrCh)
+        with open(self.FileName, 'rb') as fid:
+            fid.seek(4 * 19)
+            if not np.fromfile(fid, 'int32', 1) == self.NrCh:
+                print("number of sensors in sensor file and data file are not consisten")
+            fid.seek(4 * (self.NrCh) + 4, 1)
+            self.Version = np.fromfile(fid, 'int32',1)[0]
+            time_start, time_step = np.fromfile(fid, 'f', 2)
+            self.Freq = 1 / time_step
+            self.ScaleFactor = np.fromfile(fid, 'f', self.NrCh)
+            fid.seek(2 * 4 * self.NrCh + 48 * 2)
+            self.NrSc = int(len(np.fromfile(fid, 'int16')) / self.NrCh)
         self.Time = self.NrSc * time_step
         self.t = np.arange(0, self.Time, time_step) + time_start
-        fid.close()
 ################################################################################
 # init function, load channel and other general result file info
     def __init__(self, FileName, ReadOnly=0):
@@ -263,14 +261,13 @@ class ReadHawc2(object):
         ChVec = [] if ChVec is None else ChVec
         if not ChVec:
             ChVec = range(1, self.NrCh)
-        fid = open(self.FileName, 'rb')
-        fid.seek(2 * 4 * self.NrCh + 48 * 2)
-        temp = np.fromfile(fid, 'int16')
+        with open(self.FileName, 'rb') as fid:
+            fid.seek(2 * 4 * self.NrCh + 48 * 2)
+            temp = np.fromfile(fid, 'int16')
         if self.Version==3:
             temp = temp.reshape(self.NrCh, self.NrSc).transpose()
         else:
             temp = temp.reshape(self.NrSc, self.NrCh)
-        fid.close()
         return np.dot(temp[:, ChVec], np.diag(self.ScaleFactor[ChVec]))
 ################################################################################
 # Read results in GTSD format
-- 
2.43.0


From 64f629a734486a31dd5339439c7b209a14669010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:08 +0000
Subject: [PATCH 42/72] fix: CactusFile.toDataFrame returns an empty data frame
 instead of nothing when there is no time data

---
 weio/cactus_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 47bcf59..46e64ff 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -183,7 +183,7 @@ class CactusFile(File):
     def timeDataToOpenFAST(self, df):
         """ Convert to similar labels as OpenFAST"""
         if df is None:
-            return None, 0
+            return pd.DataFrame(), 0
         df = df.copy() # NOTE: columns are inserted below
         nRot      = self['configinputs']['nr']
         nPerRot   = self['configinputs']['nti']
-- 
2.43.0


From 422a9ed8d13881f8fe7e528a46877a14d087df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:55 +0000
Subject: [PATCH 43/72] fix: text that was read with undecodable bytes kept can
 be written (OpenFAST input, FLEX profile, TurbSim time series)

---
 weio/fast_input_file.py   | 4 ++--
 weio/flex_profile_file.py | 2 +-
 weio/turbsim_ts_file.py   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index d0aac54..d0973ef 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -746,7 +746,7 @@ class FASTInputFileBase(File):
 
     def _write(self):
         self._writeSanityChecks()
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(self.toString())
 
     def toDataFrame(self):
@@ -1582,7 +1582,7 @@ class ADPolarFile(FASTInputFileBase):
             raw = FASTInputFileBase()
             raw.setData(filename=self.filename, data=data, hasNodal=self.hasNodal, module=self.module)
             # Write
-            with open(self.filename,'w') as f:
+            with open(self.filename,'w', errors="surrogateescape") as f:
                 f.write(raw.toString())
 
     def _toDataFrame(self):
diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index c557136..72f1f93 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -125,7 +125,7 @@ class FLEXProfileFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(self.toString())
 
     def __repr__(self):
diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index b9383bb..d2a7580 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -85,7 +85,7 @@ class TurbSimTSFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f:
             f.write(self.toString())
 
         
-- 
2.43.0


From 2ce12423e4ae3bbf2631a06a9dd145f203f730de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:56 +0000
Subject: [PATCH 44/72] fix: TurbSimFile.write limits the scaled values to the
 int16 range instead of wrapping around

---
 weio/turbsim_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 73177f9..3bba7f5 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -142,8 +142,9 @@ class TurbSimFile(File):
             else:
                 scl[k] = intrng / (all_max-all_min)
             off[k]    = intmin - scl[k] * all_min
-            out[k]    = (ts[k]    * scl[k] + off[k]).astype(np.int16)
-            outTwr[k] = (tsTwr[k] * scl[k] + off[k]).astype(np.int16)
+            # NOTE: limited to the int16 range, since rounding of off & scl (float32) may lead to values slightly outside of it
+            out[k]    = np.clip(ts[k]    * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
+            outTwr[k] = np.clip(tsTwr[k] * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
         dz = self['z'][1]- self['z'][0]
         dy = self['y'][1]- self['y'][0]
-- 
2.43.0


From efae69a968869c3e7189dd8d2f61a9835c0c074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:56 +0000
Subject: [PATCH 45/72] fix: TurbSimFile.write stores the length of the
 description in bytes

---
 weio/turbsim_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 3bba7f5..6547fa7 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -157,8 +157,9 @@ class TurbSimFile(File):
             f.write(struct.pack('<h4l', ID, nz, ny, nTwr, nt))
             f.write(struct.pack('<6f', dz, dy, dt, uHub, zHub, z0)) # NOTE uHub, zHub maybe not used
             f.write(struct.pack('<6f', scl[0],off[0],scl[1],off[1],scl[2],off[2]))
+            info = info.encode()
             f.write(struct.pack('<l' , len(info)))
-            f.write(info.encode())
+            f.write(info)
             try:
                 for it in np.arange(nt):
                     f.write(out[:,it,:,:].tobytes(order='F'))
-- 
2.43.0


From 86ca269fb7e219f66d5c90019e90f3d60ae9566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:56 +0000
Subject: [PATCH 46/72] fix: unbuffered reading of uncompressed OpenFAST binary
 output

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 60d1b24..259dd05 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -277,8 +277,8 @@ def load_binary_output(filename, use_buffer=True):
             TimeIncr = fread(fid, 1, 'float64')  #;           % The time increment, REAL(8)
 
         if FileID == FileFmtID_NoCompressWithoutTime:
-            ColScl = np.ones ((NumOutChans, 1)) # The channel slopes for scaling, REAL(4)
-            ColOff = np.zeros((NumOutChans, 1)) # The channel offsets for scaling, REAL(4)
+            ColScl = np.ones (NumOutChans) # The channel slopes for scaling, REAL(4)
+            ColOff = np.zeros(NumOutChans) # The channel offsets for scaling, REAL(4)
         else:
             ColScl = fread(fid, NumOutChans, 'float32')  # The channel slopes for scaling, REAL(4)
             ColOff = fread(fid, NumOutChans, 'float32')  # The channel offsets for scaling, REAL(4)
-- 
2.43.0


From cc3ae46d9604ed53ad09ab6d59ed5368892049dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 47/72] fix: OpenFAST input files with several tables: label of
 the entry stored before a table got its suffix twice

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index d0973ef..63a3823 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -564,7 +564,7 @@ class FASTInputFileBase(File):
                 nOffset        = NUMTAB_FROM_LAB_NOFFSET[ii]
                 if nOffset>0:
                     # Creating a dictionary for that entry
-                    dd = {'value':d['value'], 'label':d['label']+labOffset, 'isComment':False, 'descr':d['descr'], 'tabType':TABTYPE_NOT_A_TAB}
+                    dd = {'value':d['value'], 'label':d['label'], 'isComment':False, 'descr':d['descr'], 'tabType':TABTYPE_NOT_A_TAB}
                     self.data.append(dd)
 
                 d['label']     = NUMTAB_FROM_LAB_VARNAME[ii]
-- 
2.43.0


From 808879904513fcd219482c6c525fabbf56f4d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 48/72] fix: table of grid outputs of OLAF files was never
 recognized

---
 weio/fast_input_file.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 63a3823..8a826b7 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -320,6 +320,12 @@ class FASTInputFileBase(File):
         NUMTAB_FROM_VAL_VARNAME += [ 'BaseJoints'      , 'InterfaceJoints' , 'MemberCosineMatrix' , 'ConcentratedMasses']
         NUMTAB_FROM_VAL_NHEADER += [ 2                 , 2                 , 2                    , 2                   ]
         NUMTAB_FROM_VAL_TYPE    += [ 'mix'             , 'num'             , 'num'                , 'num'               ]
+        # OLAF
+        NUMTAB_FROM_VAL_DETECT  += ['GridName'   ]
+        NUMTAB_FROM_VAL_DIM_VAR += ['nGridOut'   ]
+        NUMTAB_FROM_VAL_VARNAME += ['GridOutputs']
+        NUMTAB_FROM_VAL_NHEADER += [2            ]
+        NUMTAB_FROM_VAL_TYPE    += ['mix'        ]
 
 
         # --- Tables that can be detected based on the "Label" (second entry on line)
@@ -338,12 +344,6 @@ class FASTInputFileBase(File):
         NUMTAB_FROM_LAB_NOFFSET  += [1                   , 0          , 0           , 0                , 0               ]
         NUMTAB_FROM_LAB_TYPE     += ['num'               , 'num'      , 'num'       , 'num'            , 'num'           ]
         # OLAF
-        NUMTAB_FROM_LAB_DETECT   += ['GridName'   ]
-        NUMTAB_FROM_LAB_DIM_VAR  += ['nGridOut'   ]
-        NUMTAB_FROM_LAB_VARNAME  += ['GridOutputs']
-        NUMTAB_FROM_LAB_NHEADER  += [0            ]
-        NUMTAB_FROM_LAB_NOFFSET  += [2            ]
-        NUMTAB_FROM_LAB_TYPE     += ['mix'        ]
 
         FILTAB_FROM_LAB_DETECT   = ['FoilNm' ,'AFNames']
         FILTAB_FROM_LAB_DIM_VAR  = ['NumFoil','NumAFfiles']
-- 
2.43.0


From 59f3c493c286a58a0fe6ab928ee1b189418312b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 49/72] fix: AeroDyn14 airfoil files could not be written, nor
 converted to a data frame with other numbers of columns

---
 weio/fast_input_file.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 8a826b7..7dc11d0 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -711,6 +711,8 @@ class FASTInputFileBase(File):
                 s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabColumnNames']]))
                 s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
+            elif d['tabType']==TABTYPE_NUM_NO_HEADER:
+                s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
                 s+='{} {} {}\n'.format(d['value'][0],d['label'],d['descr']) # TODO?
@@ -864,9 +866,10 @@ class FASTInputFileBase(File):
                     splits = lines[i].split()
                     #print(splits)
                     d = getDict()
-                    d['label'] = ' '.join(splits[1:]) # TODO
-                    d['descr'] = ' '.join(splits[1:]) # TODO
-                    d['value'] = float(splits[0])
+                    label, _, descr = (' '.join(splits[1:])+' ').partition(' - ')
+                    d['label'] = label.strip() # TODO
+                    d['descr'] = descr.strip() # TODO
+                    d['value'] = int(splits[0]) if strIsInt(splits[0]) else float(splits[0])
                     self.data.append(d)
                 #pass
                 #for i in range(2,14):
@@ -890,6 +893,7 @@ class FASTInputFileBase(File):
                     d['tabUnits']       = ['(deg)']+['(-)' , '(-)']*nTables
                 else:
                     d['tabColumnNames'] = ['col{}'.format(j) for j in range(np.size(data,1))]
+                    d['tabUnits']       = None
                 self.data.append(d)
                 return True
 
-- 
2.43.0


From 7c799aa35ec3457df5106799fa1e860dbfe77ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 50/72] fix: FASTSummaryFile kept the entries of a previously
 read file

---
 weio/fast_summary_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 2bcd610..ea27528 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -59,6 +59,7 @@ class FASTSummaryFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self.clear() # nothing is kept from a file read before
         with open(self.filename, 'r', errors="surrogateescape") as fid:
             header= readFirstLines(fid, 4)
         if any(['subdyn' in s.lower() for s in header]):
-- 
2.43.0


From 2af8cd129bd848e70b1816e3908dac46d5bd2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 51/72] fix: FASTLinearizationFile kept the matrices and
 operating points of a previously read file

---
 weio/fast_linearization_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 26f25de..34cd94a 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -42,6 +42,7 @@ class FASTLinearizationFile(File):
         return 'FAST linearization output'
 
     def _read(self, *args, **kwargs):
+        self.clear() # nothing is kept from a file read before
         self['header']=[]
 
         def extractVal(lines, key):
-- 
2.43.0


From 65ec991522b39a42b67d8780ffa3ee25479e687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 52/72] fix: FLEXDocFile merged the entries of a previously
 read file, or failed on them

---
 weio/flex_doc_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 86b004a..29b3446 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -21,6 +21,7 @@ class FLEXDocFile(File):
         return 'FLEX doc file'
 
     def _read(self):
+        self.clear() # nothing is kept from a file read before
         with open(self.filename, 'r', errors="surrogateescape") as f:
             line1=f.readline().strip()
             if line1.find('#Program')!=0:
-- 
2.43.0


From c5d9531b37021c56dc694701d40a6b383fd47777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 53/72] fix: TecplotFile kept the sections of a previously read
 file

---
 weio/tecplot_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index bb7d953..b2b0f3c 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -177,6 +177,7 @@ class TecplotFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self.clear() # nothing is kept from a file read before
         try:
             read_tecplot(self.filename,self)
         except BrokenFormatError:
-- 
2.43.0


From a909de21a5e4e8e673ea5319c2ed97c927cde06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 54/72] fix: HAWC2DatFile remained flagged as a BHAWC file when
 reading another file

---
 weio/hawc2_dat_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index f45aaaf..802ea5b 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -35,6 +35,8 @@ class HAWC2DatFile(File):
         super(HAWC2DatFile, self).__init__(filename=filename,**kwargs)
 
     def _read(self):
+        self.info  = {}
+        self.bHawc = False
         try:
             res_file  = ReadHawc2(self.filename)
             self.data = res_file.ReadAll()
-- 
2.43.0


From c7dd43d3ecc6ae83edcbea74a6cb7e8845b40af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 55/72] fix: ExtPtfmFile kept the entries of a previously read
 file (or of the prototype)

---
 weio/fast_input_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 7dc11d0..50aa740 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1751,6 +1751,7 @@ class ExtPtfmFile(FASTInputFileBase):
 
 
     def _read(self):
+        self.setData(filename=self.filename, module='ExtPtfm') # nothing is kept from a file read before
         with open(self.filename, 'r', errors="surrogateescape") as f:
             lines=f.read().splitlines()
         detectAndReadExtPtfmSE(self, lines)
-- 
2.43.0


From 6308adb198693308a80c96b57a93ee3da4969923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 56/72] fix: EDBladeFile could not be used on a file (a line of
 text was stored as an entry)

---
 weio/fast_input_file.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 50aa740..26d3f9d 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1346,11 +1346,17 @@ class EDBladeFile(FASTInputFileBase):
             self.addValKey(     0.0   , 'BldEdgSh(4)', '           , coeff of x^4')
             self.addValKey(     0.0   , 'BldEdgSh(5)', '           , coeff of x^5')
             self.addValKey(     0.0   , 'BldEdgSh(6)', '           , coeff of x^6')
-        else:
-            # fix some stuff that generic reader fail at
-            self.data[1] =  self._lines[1]
         self.module='EDBlade'
 
+    def _read(self):
+        FASTInputFileBase._read(self)
+        # fix some stuff that generic reader fail at: the second line is a description
+        d = getDict()
+        d['isComment'] = True
+        d['value']     = self._lines[1]
+        self.data[1]   = d
+        self.module    = 'EDBlade'
+
     def _writeSanityChecks(self):
         """ Sanity checks before write """
         self['NBlInpSt']=self['BldProp'].shape[0]
-- 
2.43.0


From dd3b11ddc08b3c9a587f5f1f742d9e4b9ab5459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 57/72] fix: ADBladeFile and ADPolarFile lost their module name
 when reading a file again

---
 weio/fast_input_file.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 26d3f9d..3ceb9fa 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1414,6 +1414,10 @@ class ADBladeFile(FASTInputFileBase):
             self.addTable('BldAeroNodes', np.zeros((0,7)), tabType=1, tabDimVar='NumBlNds', cols=['BlSpn', 'BlCrvAC', 'BlSwpAC', 'BlCrvAng', 'BlTwist', 'BlChord', 'BlAFID'], units=['(m)', '(m)', '(m)', '(deg)', '(deg)', '(m)', '(-)'])
         self.module='ADBlade'
 
+    def _read(self):
+        FASTInputFileBase._read(self)
+        self.module='ADBlade'
+
     def _writeSanityChecks(self):
         """ Sanity checks before write"""
         self['NumBlNds']=self['BldAeroNodes'].shape[0]
@@ -1563,6 +1567,10 @@ class ADPolarFile(FASTInputFileBase):
                 self.addTable('AFCoeff'+labOffset, np.zeros((0,4)), tabType=2, tabDimVar='NumAlf', cols=['Alpha', 'Cl', 'Cd', 'Cm'], units=['(deg)', '(-)', '(-)', '(-)'])
         self.module='ADPolar'
 
+    def _read(self):
+        FASTInputFileBase._read(self)
+        self.module='ADPolar'
+
     def _writeSanityChecks(self):
         """ Sanity checks before write"""
         nTabs = self['NumTabs']
-- 
2.43.0


From 717c135f3be9ae24b4b6392c94cf1ee4e81bf7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 58/72] fix: FAST input files of special formats kept the lines
 of a previously read file

---
 weio/fast_input_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 3ceb9fa..d369273 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -361,6 +361,7 @@ class FASTInputFileBase(File):
         #with open(self.filename, 'r', errors="surrogateescape") as f:
         with open(self.filename, 'r', errors="surrogateescape") as f:
             lines=f.read().splitlines()
+        self._lines = lines
         # IF NEEDED> DO THE FOLLOWING FORMATTING:
             #lines = [str(l).encode('utf-8').decode('ascii','ignore') for l in f.read().splitlines()]
 
@@ -646,8 +647,6 @@ class FASTInputFileBase(File):
 #             raise e
 # #             print(e)
 #             raise Exception('Fast File {}: '.format(self.filename)+'\n'+e.args[0])
-        self._lines = lines 
-
             
     def toString(self):
         s=''
-- 
2.43.0


From 285695cf4d3d6dd1d0c99824ec8593c0d057496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 59/72] fix: FASTInputFile kept the dedicated format of a
 previously read file

---
 weio/fast_input_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index d369273..08f4b82 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -97,7 +97,11 @@ class FASTInputFile(File):
             return self.basefile
 
     def read(self, filename=None):
-        return self.fixedfile.read(filename)
+        if filename is None:
+            filename = self.filename
+        # The dedicated format of the previous file does not apply, it will be detected again
+        self._fixedfile = None
+        return self.basefile.read(filename)
 
     def write(self, filename=None):
         return self.fixedfile.write(filename)
-- 
2.43.0


From 6f13641d48fb453a4e90b74ca4cde86f1fa40c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 60/72] fix: CSVFile used the separator, comments and column
 names detected in a previously read file

---
 weio/csv_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 9cdab73..dfebad7 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -52,6 +52,8 @@ class CSVFile(File):
             else:
                 self.header=header
         self.nHeader=0
+        # Options provided by the user, the attributes above are updated with what is detected in a file
+        self._options = (self.sep, self.colNames, self.commentChar, self.commentLines, self.colNamesLine)
         if (len(self.commentLines)>0) and (self.commentChar is not None):
             raise Exception('Provide either `commentChar` or `commentLines` for CSV file types')
         if (len(self.colNames)>0) and (self.colNamesLine is not None):
@@ -93,6 +95,8 @@ class CSVFile(File):
                 return True
             except:
                 return False
+        # --- What was detected in a file read before does not apply to this one
+        self.sep, self.colNames, self.commentChar, self.commentLines, self.colNamesLine = self._options
         # --- Safety
         if self.sep=='' or self.sep==' ':
             self.sep=r'\s+'
-- 
2.43.0


From 289da6c28f035543b32d874724df46b6d8b23c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 61/72] fix: VTKFile merged the data of a previously read file

---
 weio/vtk_file.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index a0fb62a..257a61e 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -57,6 +57,15 @@ class VTKFile(File):
 
     def __init__(self,filename=None,**kwargs):
         self.filename = None
+        self._reset()
+
+        # Propagate read
+        if filename:
+            self.read(filename=filename,**kwargs)
+
+
+    def _reset(self):
+        """ Initialize the data """
         # For regular grid
         self.xp_grid=None  # location of points
         self.yp_grid=None
@@ -81,10 +90,6 @@ class VTKFile(File):
         self.num_items = 0
         self.section = None
 
-        # Propagate read
-        if filename:
-            self.read(filename=filename,**kwargs)
-
 
     def read(self, filename=None):
         """ read a VTK file """
@@ -97,6 +102,7 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self._reset() # nothing is kept from a file read before
         with open(self.filename, "rb") as f:
             # initialize output data
             # skip header and title
-- 
2.43.0


From db6027054155bfe5fd4e4fd17766d51f6b5d79e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 62/72] fix: FASTInputDeck kept the modules and airfoils of a
 previously read deck

---
 weio/fast_input_deck.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 8469577..1127cdb 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -48,12 +48,21 @@ class FASTInputDeck(dict):
         else:
             self.readlist = ['Fst']+self.readlist
 
-        self.inputfiles = {}
-
         # --- Harmonization with AeroElasticSE
         self.FAST_ver       = 'OPENFAST'
         self.path2dll       = None   # Path to dll file
 
+        self._reset()
+
+        # Read all inputs files
+        if len(fullFstPath)>0:
+            self.read()
+
+
+    def _reset(self):
+        """ Initialize the data of the deck """
+        self.inputfiles = {}
+
         self.fst_vt={}
         self.fst_vt['description']       = ''            
         self.fst_vt['Fst']               = None
@@ -78,14 +87,11 @@ class FASTInputDeck(dict):
         self.fst_vt['ac_data']           = [] # TODO, how is it stored in WEIS?
 
 
-        self.ADversion=''
-
-        # Read all inputs files
-        if len(fullFstPath)>0:
-            self.read()
+        self.AD        = None
+        self.ADversion = ''
 
 
-    def readAD(self, filename=None, readlist=None, verbose=False, key='AeroDyn15'):
+    def readAD(self, filename=None, readlist=None, verbose=None, key='AeroDyn15'):
         """ 
         readlist: 'AD','AF','AC'
         """
@@ -103,7 +109,8 @@ class FASTInputDeck(dict):
         else:
             baseDir  = os.path.dirname(filename)
 
-        self.verbose  = verbose
+        if verbose is not None:
+            self.verbose  = verbose
 
         self.fst_vt[key] = self._read(filename,'AD')
 
@@ -117,6 +124,7 @@ class FASTInputDeck(dict):
             #    self.fst_vt['AeroDynBlade'].append(self._read(bld_file,'ADbld'))
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
+            self.fst_vt['ac_data']=[]
             for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
                 af_filename = os.path.join(baseDir,af_filename).replace('"','')
                 try: 
@@ -222,6 +230,8 @@ class FASTInputDeck(dict):
         if filename is not None:
             self.filename = filename
 
+        self._reset() # nothing is kept from a deck read before
+
         # Read OpenFAST files
         self.fst_vt['Fst'] = self._read(self.FAST_InputFile, 'Fst')
         if self.fst_vt['Fst'] is None:
@@ -295,8 +305,6 @@ class FASTInputDeck(dict):
         # --- Backward compatibility
         self.fst = self.fst_vt['Fst']
         self.ED  = self.fst_vt['ElastoDyn']
-        if not hasattr(self,'AD'):
-            self.AD = None
         if self.AD is not None:
             self.AD.Bld1 = self.fst_vt['AeroDynBlade']
             self.AD.AF  = self.fst_vt['af_data']
-- 
2.43.0


From 7440371a969e1a084facf48c92d87a53555d7521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 63/72] fix: VTKFile kept the number of points and offsets of a
 previously read file

---
 weio/vtk_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 257a61e..fda5946 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -74,6 +74,8 @@ class VTKFile(File):
 
         # Main Data
         self.points = None  
+        self.num_points  = 0
+        self.num_offsets = 0
         self.field_data = {}
         self.point_data = {} 
         self.dataset = {} 
-- 
2.43.0


From 19a3ab203e02ece8936b3bee4b69b91d9785280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 64/72] fix: BHAWCDatFile could not read files and was never
 flagged as a BHAWC file

---
 weio/hawc2_dat_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 802ea5b..127d127 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -154,5 +154,4 @@ class HAWC2DatFile(File):
 
 class BHAWCDatFile(HAWC2DatFile):
     def __init__(self, filename=None, **kwargs):
-        super(HAWC2DatFile, self).__init__(filename=filename,**kwargs)
-        self.bHawc=False
+        super(BHAWCDatFile, self).__init__(filename=filename,**kwargs)
-- 
2.43.0


From 22c0534e003fee1af32f8500d94d76ab444c7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 65/72] fix: TurbSimFile kept the velocity field of a
 previously read file when reading a header only

---
 weio/turbsim_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 6547fa7..97fd296 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -72,6 +72,7 @@ class TurbSimFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self.clear() # nothing is kept from a file read before
         scl = np.zeros(3, np.float32); off = np.zeros(3, np.float32)
         with open(self.filename, mode='rb') as f:            
             # Reading header info
-- 
2.43.0


From b97adfe5967e586d6a8c94bf77cf86d661e69229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 66/72] fix: HAWC2DatFile wrote to another folder when the name
 of the folder contains .sel

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 127d127..d3c5bcf 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -109,7 +109,7 @@ class HAWC2DatFile(File):
         if ext=='.dat':
             datfilename=filename
         elif ext=='.sel':
-            datfilename=filename.replace(ext,'.dat')
+            datfilename=filename[:-4]+'.dat'
         else:
             datfilename=filename+'.dat'
         selfilename=datfilename[:-4]+'.sel'
-- 
2.43.0


From 2964f5efda830ff8ed499ab0dfd47b4e22376dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 67/72] fix: BladedFile could not read files in folders (or
 with names) containing % or pattern characters

---
 weio/bladed_out_file.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 7af3060..ac76774 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -173,7 +173,8 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         return [], {}
     
     # --- Read data file
-    dataFilename = sensorFilename.replace('%','$')
+    base, ext = os.path.splitext(sensorFilename)
+    dataFilename = base + ext.replace('%','$')
 
     if isBinary(dataFilename):            # it is binary            
 
@@ -276,10 +277,10 @@ class BladedFile(File):
         basename, ext = os.path.splitext(self.filename)
         if ext.lower()=='.$pj':
             readTimeFilesOnly=True
-            searchPattern = basename + '.%[0-9][0-9]*' # find all files in the folder
+            searchPattern = glob.escape(basename) + '.%[0-9][0-9]*' # find all files in the folder
         else:
             readTimeFilesOnly=False
-            searchPattern = basename + ext.replace('$','%') # sensor file name
+            searchPattern = glob.escape(basename + ext.replace('$','%')) # sensor file name
         
         # Look for files matching pattern
         files = glob.glob(searchPattern)
@@ -298,7 +299,8 @@ class BladedFile(File):
 
         for i,filename in enumerate(files):
 
-            dataFilename = filename.replace('%','$')
+            base, fileext = os.path.splitext(filename)
+            dataFilename = base + fileext.replace('%','$')
             try:
                 # Call "Read_bladed_file" function to Read and store data:
                 data, info = read_bladed_output(filename, readTimeFilesOnly=readTimeFilesOnly)    
-- 
2.43.0


From 3d0c2176157012e13248dc6d0d1c8e52fda04c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:10 +0000
Subject: [PATCH 68/72] fix: error handlers fail themselves when the exception
 has no text argument (e.g. unreadable files)

---
 weio/fast_input_file.py    | 6 +++---
 weio/file.py               | 4 ++--
 weio/hawc2_ae_file.py      | 2 +-
 weio/hawc2_dat_file.py     | 2 +-
 weio/hawc2_pc_file.py      | 2 +-
 weio/hawcstab2_ind_file.py | 2 +-
 weio/hawcstab2_pwr_file.py | 2 +-
 weio/tecplot_file.py       | 2 +-
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 08f4b82..deb1e97 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1107,7 +1107,7 @@ def parseFASTInputLine(line_raw,i,allowSpaceSeparatedList=False):
     except WrongFormatError as e:
         raise WrongFormatError('Line {}: '.format(i+1)+e.args[0])
     except Exception as e:
-        raise Exception('Line {}: '.format(i+1)+e.args[0])
+        raise Exception('Line {}: '.format(i+1)+str(e))
 
     return d
 
@@ -1275,7 +1275,7 @@ def parseFASTNumTable(filename,lines,n,iStart,nHeaders=2,tableType='num',nOffset
             ColNames=None
             
     except Exception as e:    
-        raise BrokenFormatError('Line {}: {}'.format(iStart+i+1,e.args[0]))
+        raise BrokenFormatError('Line {}: {}'.format(iStart+i+1,str(e)))
     return Tab, ColNames, Units
 
 
@@ -1291,7 +1291,7 @@ def parseFASTFilTable(lines,n,iStart):
             Tab.append(l[0].strip())
             
     except Exception as e:    
-        raise Exception('Line {}: '.format(iStart+i+1)+e.args[0])
+        raise Exception('Line {}: '.format(iStart+i+1)+str(e))
     return Tab
 
 
diff --git a/weio/file.py b/weio/file.py
index c28f78f..7a1d314 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -118,12 +118,12 @@ class File(dict):
             filename_out = f+'_TMP'+ext
             self.write(filename_out)
         except Exception as e:
-            raise Exception('Error writing what we read\n'+e.args[0])
+            raise Exception('Error writing what we read\n'+str(e))
         # --- Second,  re-read what we wrote
         try:
             self.read(filename_out)
         except Exception as e:
-            raise Exception('Error reading what we wrote\n'+e.args[0])
+            raise Exception('Error reading what we wrote\n'+str(e))
         if bDelete:
             os.remove(filename_out)
         return filename_out
diff --git a/weio/hawc2_ae_file.py b/weio/hawc2_ae_file.py
index 950fe6a..c7bb18e 100644
--- a/weio/hawc2_ae_file.py
+++ b/weio/hawc2_ae_file.py
@@ -44,7 +44,7 @@ class HAWC2AEFile(File):
         try:
             self.data = AEFile(self.filename)
         except Exception as e:    
-            raise WrongFormatError('AE File {}: '.format(self.filename)+e.args[0])
+            raise WrongFormatError('AE File {}: '.format(self.filename)+str(e))
 
     def write(self, filename=None):
         if filename:
diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index d3c5bcf..f9477ee 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -50,7 +50,7 @@ class HAWC2DatFile(File):
             #raise WrongFormatError('HAWC2 dat File {}:  '.format(self.filename)+' File Not Found:'+e.filename)
         except Exception as e:    
 #             raise e
-            raise WrongFormatError('HAWC2 dat File {}: '.format(self.filename)+e.args[0])
+            raise WrongFormatError('HAWC2 dat File {}: '.format(self.filename)+str(e))
 
     #def _write(self):
         #self.data.to_csv(self.filename,sep=self.false,index=False)
diff --git a/weio/hawc2_pc_file.py b/weio/hawc2_pc_file.py
index e7a75c5..9bdf755 100644
--- a/weio/hawc2_pc_file.py
+++ b/weio/hawc2_pc_file.py
@@ -45,7 +45,7 @@ class HAWC2PCFile(File):
         try:
             self.data = PCFile(self.filename)
         except Exception as e:    
-            raise WrongFormatError('PC File {}: '.format(self.filename)+e.args[0])
+            raise WrongFormatError('PC File {}: '.format(self.filename)+str(e))
 
     def write(self, filename=None):
         if filename:
diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 07e899d..cb46365 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -50,7 +50,7 @@ class HAWCStab2IndFile(File):
         try:
             self.data = np.loadtxt(self.filename, skiprows=1)
         except Exception as e:    
-            raise BrokenFormatError('Ind File {}: '.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Ind File {}: '.format(self.filename)+str(e))
 
         if self.data.shape[1]!=len(cols):
             raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
diff --git a/weio/hawcstab2_pwr_file.py b/weio/hawcstab2_pwr_file.py
index 4df2419..6e5b980 100644
--- a/weio/hawcstab2_pwr_file.py
+++ b/weio/hawcstab2_pwr_file.py
@@ -43,7 +43,7 @@ class HAWCStab2PwrFile(File):
         try:
             self.data = np.loadtxt(self.filename, skiprows=1)
         except Exception as e:    
-            raise BrokenFormatError('Pwr File {}: '.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Pwr File {}: '.format(self.filename)+str(e))
 
         if self.data.shape[1]!=len(cols):
             raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename))
diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index b2b0f3c..d241852 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -185,7 +185,7 @@ class TecplotFile(File):
         except WrongFormatError:
             raise 
         except Exception as e:    
-            raise WrongFormatError('Tecplot dat File {}: '.format(self.filename)+e.args[0])
+            raise WrongFormatError('Tecplot dat File {}: '.format(self.filename)+str(e))
 
     def write(self, filename=None, precision=None):
         """ Write tecplot ascii file """
-- 
2.43.0


From eb4d2716e4c53a5ef0fe1e87cef8349a5b546d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:15 +0000
Subject: [PATCH 69/72] fix: the comment of an input file can be set (a
 property was called as a function)

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index deb1e97..7cdba6c 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -128,7 +128,7 @@ class FASTInputFile(File):
 
     @comment.setter
     def comment(self,comment):
-        self.fixedfile.comment(comment)
+        self.fixedfile.comment = comment
 
     def __iter__(self):
         return self.fixedfile.__iter__()
-- 
2.43.0


From f4f030f88157c73b20fb1c86e55d01c703e63542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:15 +0000
Subject: [PATCH 70/72] fix: the comment of a polar file is its text, not the
 property of the parent class

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 7cdba6c..734db19 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1651,7 +1651,7 @@ class ADPolarFile(FASTInputFileBase):
 
     @property
     def comment(self):
-        return FASTInputFileBase.comment
+        return '\n'.join([self.data[i]['value'].lstrip('!').strip() for i in self._IComment])
 
     @comment.setter
     def comment(self, comment):
-- 
2.43.0


From 814ab0bb38a951141b54b076894ff6e0bbcd9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:15 +0000
Subject: [PATCH 71/72] fix: iterating over an input file stops after the last
 entry

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 734db19..6285c02 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -229,7 +229,7 @@ class FASTInputFileBase(File):
         return self
 
     def __next__(self): # Python 2: def next(self)
-        if self.iCurrent > self.iMax:
+        if self.iCurrent >= self.iMax:
             raise StopIteration
         else:
             self.iCurrent += 1
-- 
2.43.0


From d7cbfbc01e709c2650b5781c1805bc7f5cba099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:15 +0000
Subject: [PATCH 72/72] fix: a written input deck refers to its ServoDyn file
 (the AeroDyn file was entered instead)

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 1127cdb..9779803 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -380,7 +380,7 @@ class FASTInputDeck(dict):
         fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
         fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
         fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_AD) + '"'
+        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
         fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
         fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
         fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-- 
2.43.0

