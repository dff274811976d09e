From 0e5e910da2c8d53944b1afa4037751346d56bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 001/105] fix: keep spaces in registered data paths when
 reading path files

---
 simim/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 1761fe5..9ab055a 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -18,7 +18,7 @@ def _checkload_path_file(path):
     if os.path.exists(path):
         with open(path) as file:
             for line in file.readlines():
-                line_split = line.replace('\n','').split(' ')
+                line_split = line.replace('\n','').split(' ',1)
                 endpoint[line_split[0]] = line_split[1]
     return endpoint
 
-- 
2.43.0


From 808d74fa80ce75be2f57280543c407095d18390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 002/105] fix: Handler.plot no longer modifies the caller's (or
 default) plotkws

---
 simim/_handlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 2bd3339..4c6ae12 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -584,6 +584,7 @@ class Handler():
         fig.subplots_adjust(left=.15,right=.95,bottom=.15,top=.95)
         ax.set(**axkws)
         
+        plotkws = plotkws.copy()
         if 'ls' not in plotkws and 'linestyle' not in plotkws:
             plotkws['ls'] = ''
         if 'marker' not in plotkws:
-- 
2.43.0


From 692d081b329eeae23b7c82affbaa77fa03e37f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 003/105] fix: delete_property forgets loaded and generated
 copies of the deleted property

---
 simim/_handlers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 4c6ae12..e7010b5 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -408,13 +408,16 @@ class Handler():
                 else:
                     del file[self.groupname][property_name]
 
-                    self.properties_saved = [key for key in file[self.groupname].keys()]
+                    self.properties_saved = [key for key in file[self.groupname].keys() if key not in ['mass_cuts']]
                     properties_all_new = []
                     for i in self.properties_all:
                         if i != property_name:
                             properties_all_new.append(i)
                     self.properties_all = properties_all_new
 
+                    self.properties_loaded.pop(property_name,None)
+                    self.properties_generated = [i for i in self.properties_generated if i != property_name]
+
                     self.properties_units.pop(property_name,None)
                     self.properties_h_dependence.pop(property_name,None)
 
-- 
2.43.0


From e8b089848bcfd37f5771ce0aaa3d42da4df30ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 004/105] fix: unloading a property that was never saved
 removes it from the available properties

---
 simim/_handlers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index e7010b5..3fa35ac 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -184,6 +184,13 @@ class Handler():
 
             self.properties_loaded.pop(property_name, None)
 
+            # Properties that were never saved can't be read once unloaded
+            if property_name not in self.properties_saved:
+                self.properties_all = [i for i in self.properties_all if i != property_name]
+                self.properties_generated = [i for i in self.properties_generated if i != property_name]
+                self.properties_units.pop(property_name, None)
+                self.properties_h_dependence.pop(property_name, None)
+
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
         """Load a property from file and return
 
-- 
2.43.0


From 921b2fe12b5f69a7c6560bef87d9320a14fa117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 005/105] fix: SimHandler(init_snaps=True) calls
 initialize_all_snaps with the keyword it has

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 8702687..7fe9fd7 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -256,7 +256,7 @@ class SimHandler():
 
         self.init_snaps = init_snaps
         if self.init_snaps:
-            self.initialize_all_snaps(redo=True)
+            self.initialize_all_snaps(remake=True)
 
     def initialize_all_snaps(self,remake=False):
         """Initialize SnapHandlers for each snapshot
-- 
2.43.0


From b207e18c12db01e03939aa743be66bd056425e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 006/105] fix: SimHandler.get_snap passes on the handler's
 default h convention

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 7fe9fd7..c53fafe 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -446,7 +446,7 @@ class SimHandler():
         else:
             snap = snap_meta['index']
             redshift = snap_meta['redshift']
-            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h)
+            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h,in_h_units=self.default_in_h_units)
 
     def get_snap_from_z(self,z):
         """Return a SnapHandler instance for the snapshot closest to a requested redshift
-- 
2.43.0


From ee48051194fd30ef2ad60ea3f06181bd8d343afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 007/105] fix: SimHandler.get_mass_index converts Msun to
 Msun/h by multiplying by h

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c53fafe..c5b2b1e 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -413,7 +413,7 @@ class SimHandler():
             if in_h_units:
                 mass_check = mass
             else:
-                mass_check = mass / self.h
+                mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
             if len(vals) < 1:
-- 
2.43.0


From a72a0896c8a53924e654a108a8dd9f375ec7d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 008/105] fix: remove raw data without passing its path through
 a shell

---
 simim/siminterface/_rawsiminterface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e7ca882..17f30ba 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -1,4 +1,5 @@
 import os
+import subprocess
 import warnings
 
 from astropy.cosmology import FlatLambdaCDM
@@ -337,7 +338,7 @@ class SimCatalogs():
 
         # Remove stuff
         file_path = os.path.join(self.path,'raw')
-        os.system("rm -r {}".format(file_path))
+        subprocess.call(["rm","-r",file_path])
 
     def format(self,remake=False,overwrite=False,basic=False,realtime_clean_raw=False,realtime_clean_raw_check=True):
         """Convert the unformatted simulation data into the uniform format used by 
@@ -577,6 +578,6 @@ class SimCatalogs():
                 rawsnapfiles = self._get_rawsnapfiles(snap)
                 for file in rawsnapfiles:
                     file_path = os.path.join(self.path,'raw',file)
-                    os.system("rm -r {}".format(file_path))
+                    subprocess.call(["rm","-r",file_path])
 
 
-- 
2.43.0


From a2f9cfa8f37e3a27df2481ea2f9fbd9a6dbb2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 009/105] fix: formatting a subset of snapshots into a new file
 records only those snapshots

---
 simim/siminterface/_rawsiminterface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 17f30ba..c0ab244 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -422,7 +422,9 @@ class SimCatalogs():
                 for key in self.metadata.keys():
                     file.attrs[key] = self.metadata[key]
 
-                file.attrs['snapshots'] = self.snap_meta
+                meta_snaps = self.snap_meta[np.isin(self.snap_meta['index'], snaps_to_do)]
+                file.attrs['snapshots'] = meta_snaps
+                file.attrs['number_snaps'] = len(meta_snaps)
 
         # Cases 2 and 3 - need to first get the fields to write and figure out what snaps are called for and get current metadata
         # Then sort through the requested snaps and decide whether to overwrite them or not when duplicated
-- 
2.43.0


From 985081aa124a1250e5662d4ea5af2a9dd16b6782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 010/105] fix: list the star formation rate within twice the
 half mass radius under its own catalog field

---
 simim/siminterface/illustris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index d37573a..564805e 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -191,7 +191,7 @@ class IllustrisCatalogs(SimCatalogs):
                             'SubhaloSFRinMaxRad':[('sfr_maxr','f','Msun/yr',0)],
                             # Same as SubhaloSFR, but restricted to cells within
                             # twice the stellar half mass radius.
-                            'SubhaloSFRinHalfRad':[('sfr_2hr','f','Msun/yr',0)],
+                            'SubhaloSFRinRad':[('sfr_2hr','f','Msun/yr',0)],
 
                             # Mass-weighted average metallicity (Mz/Mtot, where
                             # Z = any element above He) of the star particles bound
-- 
2.43.0


From d0c01ca67f6a7e7fc30228831f594701d724c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 011/105] fix: apply both the mass and the time conversion to
 black hole accretion rates

---
 simim/siminterface/illustris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 564805e..368396f 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -253,9 +253,9 @@ class IllustrisCatalogs(SimCatalogs):
         def kpc_to_mpc(x,h):
             return x / 1000
         def illustris_bhmassunit(x,h):
-            return x * 0.978
+            # 10^10 Msun/h / (0.978 Gyr/h)
+            return x * 1e10 / 0.978
         self.transform_keys = {'SubhaloBHMass':power_10,
-                               'SubhaloBHMdot':power_10,
                                'SubhaloMass':power_10,
                                'SubhaloMassInHalfRad':power_10,
                                'SubhaloMassInHalfRadType':power_10,
-- 
2.43.0


From e2a7ef5ac19072bbd0e6784ee25fdbcbaf34112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 012/105] fix: quote the download directory in the wget command

---
 simim/siminterface/illustris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 368396f..80e62d3 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -1,4 +1,5 @@
 import os
+import shlex
 import requests
 import warnings
 
@@ -370,7 +371,7 @@ class IllustrisCatalogs(SimCatalogs):
             wget_cmd += '--header="API-Key: {}" '.format(self.api_key)
             wget_cmd += '"http://www.tng-project.org/api/{}'.format(self.sim)
             wget_cmd += '/files/groupcat-{}/?format=api" '.format(i)
-            wget_cmd += '-P {}'.format(file_path)
+            wget_cmd += '-P {}'.format(shlex.quote(file_path))
 
             # Download the data and check that it all arrives, retry if it doesn't
             print("\nDownloading Snapshot {}".format(i))
-- 
2.43.0


From a61ef89426cde01e75ea4ebb541dd10094d80613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 013/105] fix: do not carry on silently when an Illustris
 download fails

---
 simim/siminterface/illustris.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 80e62d3..1361883 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -393,6 +393,7 @@ class IllustrisCatalogs(SimCatalogs):
                         print("Not all files downloaded correctly, retrying")
             except:
                 print('Interupted!!!')
+                raise
 
     def download_meta(self, redownload=False):
         """Download and generate metadata for the set of snapshots 
-- 
2.43.0


From 9559520ec4b1d6de914879f94de7f8129d7b1bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 014/105] fix: only skip downloading a snapshot when all of its
 files are there

---
 simim/siminterface/illustris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 1361883..543631f 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -352,7 +352,8 @@ class IllustrisCatalogs(SimCatalogs):
             self.download_snaps = []
             for i in self.snaps:
                 file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
-                if os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.0.hdf5'.format(i))):
+                n_files = self.metadata['groupcat_number_files'] if self.metadata else 1
+                if np.all([os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.{}.hdf5'.format(i,j))) for j in range(n_files)]):
                     warnings.warn("Skipping snapshot {} as it appears to exist already".format(i))
                 else:
                     self.download_snaps.append(i)
-- 
2.43.0


From 133abd8c58f0a7281d7c4a94df728dfa3fda2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 015/105] fix: halo radii are converted to Mpc/h, so declare
 them as Mpc/h

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index b601357..c5879fa 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -137,7 +137,7 @@ class UniversemachineCatalogs(SimCatalogs):
             'vmp':[('vmax_peak','f','km/s',0)],
 
             #R: Halo radius (BN98 vir, comoving kpc/h)
-            'r':[('r','f','kpc/h',-1)],
+            'r':[('r','f','Mpc/h',-1)],
 
             #Rank1: halo rank in Delta_vmax (see UniverseMachine paper)
             'rank1':[('Rank1','f','None',0)],
-- 
2.43.0


From 6122235b9c8398295100331ea67378e19f72e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 016/105] fix: wrap positions of binary catalogs into the box
 instead of discarding the result

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index c5879fa..9afe7eb 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -282,7 +282,7 @@ class UniversemachineCatalogs(SimCatalogs):
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-        subhalos['pos'][:,0:3] % self.box_edge
+        subhalos['pos'][:,0:3] %= self.box_edge
         n_halos = len(data_raw)
 
         return subhalos, n_halos
-- 
2.43.0


From 8d72830c7e99c6e95fd84a1a4eb104ad4f96def5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 017/105] fix: read star formation rates of binary catalogs as
 floats

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 9afe7eb..e82194d 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -271,7 +271,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'),
                                     ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'),
                                     ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'),
-                                    ('icl', 'f4'), ('sfr', 'i4'), ('obs_sm', 'f4'),
+                                    ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'),
                                     ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')],
                              align=True)
 
-- 
2.43.0


From afa7bc3deaa5d8a5c9d23f370da4185c5432ddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 018/105] fix: clean up all twelve raw data files of a Uchuu
 snapshot

---
 simim/siminterface/uchuu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index da962a7..15e56a9 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -242,7 +242,7 @@ class UchuuCatalogs(SimCatalogs):
 
     def _get_rawsnapfiles(self, snapshot):
         """Get path to a snapshot's raw file"""
-        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,12)]
+        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,13)]
         return rawsnapfiles
 
     def download_meta(self, redownload=False):
-- 
2.43.0


From 76a30f0a514a272c1fb1fd92dc0a880ff217e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 019/105] fix: write meta.npy, which marks the metadata as
 complete, after the snapshot metadata

---
 simim/siminterface/illustris.py       | 2 +-
 simim/siminterface/uchuu.py           | 2 +-
 simim/siminterface/universemachine.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 543631f..ddb51d9 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -490,8 +490,8 @@ class IllustrisCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
-        np.save(self.meta_path,self.metadata)
         np.save(self.snap_meta_path,self.snap_meta)
+        np.save(self.meta_path,self.metadata)
 
 def illustris_catalogs(*args, **kwargs):
     warnings.warn("illustris_catalogs is depricated, use IllustrisCatalogs instead")
diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index 15e56a9..d4fe982 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -326,8 +326,8 @@ class UchuuCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
-        np.save(self.meta_path,self.metadata)
         np.save(self.snap_meta_path,self.snap_meta)
+        np.save(self.meta_path,self.metadata)
 
     def download(self, redownload=False, datafiles=[1,2,3]):
         """Download UniverseMachine-uchuu catalogs
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index e82194d..40343fd 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -378,8 +378,8 @@ class UniversemachineCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
-        np.save(self.meta_path,self.metadata)
         np.save(self.snap_meta_path,self.snap_meta)
+        np.save(self.meta_path,self.metadata)
 
     def download(self, redownload=False):
         """Download UniverseMachine catalogs"""
-- 
2.43.0


From dc4a39bd2e493675bcc6de5776108872c0710338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 020/105] fix: download catalog files under a temporary name so
 partial files are not taken for complete ones

---
 simim/siminterface/uchuu.py           | 4 +++-
 simim/siminterface/universemachine.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index d4fe982..d30f5e3 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -374,5 +374,7 @@ class UchuuCatalogs(SimCatalogs):
                 if df > 3:
                     webpage = self.webpage + 'SFH/'
                 print("downloading snapshot {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap_id].replace('data1',f'data{df}')))
-                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path.replace('data1',f'data{df}'))
+                df_path = file_path.replace('data1',f'data{df}')
+                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),df_path+'.part')
+                os.replace(df_path+'.part',df_path)
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 40343fd..50d448a 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -409,9 +409,11 @@ class UniversemachineCatalogs(SimCatalogs):
             print("downloading item {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap]))
             file_path = os.path.join(self.path,'raw',self.web_files[snap])
             if self.sim == '_testbox':
-                shutil.copy(self.webpage.joinpath(self.web_files[snap]),file_path)
+                shutil.copy(self.webpage.joinpath(self.web_files[snap]),file_path+'.part')
+                os.replace(file_path+'.part',file_path)
             else:
-                urlretrieve(self.webpage+self.web_files[snap],file_path)
+                urlretrieve(self.webpage+self.web_files[snap],file_path+'.part')
+                os.replace(file_path+'.part',file_path)
 
 # Wrapper for back compatibility
 def universemachine_catalogs(*args, **kwargs):
-- 
2.43.0


From 2d3a83ae1f2a5d87cc523605edb634840eced492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 021/105] fix: light cone mass limits are in Msun/h, look them
 up in that convention

---
 simim/lightcone/lcmaker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 257055c..d398f06 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -188,7 +188,7 @@ class GenericLCMaker():
 
                     # Load the snapshot data for the basic fields
                     snap_grp = sim_file[snap_name]
-                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                     masses = snap_grp['mass'][:mass_index]
                     mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -292,7 +292,7 @@ class GenericLCMaker():
 
                     # Load the snapshot data for the basic fields
                     snap_grp = sim_file[snap_name]
-                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                     masses = snap_grp['mass'][:mass_index]
                     mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -668,7 +668,7 @@ class LCMaker(GenericLCMaker):
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
-                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                 masses = snap_grp['mass'][:mass_index]
                 mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -1018,7 +1018,7 @@ class SphereMaker(GenericLCMaker):
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
-                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                 masses = snap_grp['mass'][:mass_index]
                 mass_indices_final = np.where(masses >= self.minimum_mass)[0]
-- 
2.43.0


From 8400e8fc0d6b45963bd448fe7adca31a1d992ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 022/105] fix: do not use snapshots that only touch the
 redshift range of a light cone

---
 simim/lightcone/lcmaker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index d398f06..8b8ba3a 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -437,8 +437,8 @@ class LCMaker(GenericLCMaker):
         # Figure out the range of snapshots needed
         self.snapshots_use = np.zeros(0,dtype=self.snap_meta.dtype)
         for i in self.snap_meta:
-            if self.redshift_min <= i['redshift_max']:
-                if self.redshift_max >= i['redshift_min']:
+            if self.redshift_min < i['redshift_max']:
+                if self.redshift_max > i['redshift_min']:
                     self.snapshots_use = np.concatenate((self.snapshots_use,[i]))
         self.snapshots_use = np.sort(self.snapshots_use,order='redshift')
 
@@ -917,8 +917,8 @@ class SphereMaker(GenericLCMaker):
         # Figure out the range of snapshots needed
         self.snapshots_use = np.zeros(0,dtype=self.snap_meta.dtype)
         for i in self.snap_meta:
-            if self.redshift_min <= i['redshift_max']:
-                if self.redshift_max >= i['redshift_min']:
+            if self.redshift_min < i['redshift_max']:
+                if self.redshift_max > i['redshift_min']:
                     self.snapshots_use = np.concatenate((self.snapshots_use,[i]))
         self.snapshots_use = np.sort(self.snapshots_use,order='redshift')
 
-- 
2.43.0


From 1341e0633f70c5c4d1fc66b2c3b4b423b6f6dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 023/105] fix: properties added to light cones keep the data
 type they have in the simulation

---
 simim/lightcone/lcmaker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 8b8ba3a..306f78a 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -153,6 +153,11 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        # Data types of the new properties
+        with h5py.File(os.path.join(self.sim_path,'data.hdf5'),'r') as sim_file:
+            snap_grp = sim_file['Snapshot {}'.format(self.snapshots_use[0]['index'])]
+            dtypes = {key:snap_grp['mass' if key == 'masscheck' else key].dtype for key in keys}
+
         # Note in LC files that we're adding properties
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
@@ -164,7 +169,7 @@ class GenericLCMaker():
                 if shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
+                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
                     if key == 'masscheck':
                         file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
                         file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
-- 
2.43.0


From ee8abfa548c1401d8d709b4aebe38c05b457cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 024/105] fix: flip vector properties along with the halo
 positions

---
 simim/lightcone/lcmaker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 306f78a..5f90730 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -327,6 +327,12 @@ class GenericLCMaker():
                             # Trim values to the indices
                             lc_values = values[:,indexing['index']]
 
+                            # Flip the same box axes as for the positions (a mirrored spin also changes sign)
+                            flips = lc_file.attrs['box flips']
+                            if key == 'spin':
+                                flips = flips * np.prod(flips)
+                            lc_values = lc_values * flips[:,np.newaxis]
+
                             # Get the matrices and do transformation
                             los_matrix = lc_file.attrs['line of sight transformation matrix']
                             pa_matrix = lc_file.attrs['position angle transformation matrix']
-- 
2.43.0


From 1dcec5a4690977f6270015803655b47878071252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 025/105] fix: store the (fixed) orientation of light spheres
 so that vector properties can be added to them

---
 simim/lightcone/lcmaker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 5f90730..4d3bd91 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -998,6 +998,9 @@ class SphereMaker(GenericLCMaker):
                 file.attrs['shape'] = self.mode
                 file.attrs['start position'] = pointing_start[i]
                 file.attrs['box flips'] = pointing_flips[i]
+                # No rotation, but the "line of sight" (z) axis comes first
+                file.attrs['position angle transformation matrix'] = np.eye(3)
+                file.attrs['line of sight transformation matrix'] = np.array([[0,0,1],[1,0,0],[0,1,0]])
 
                 file.attrs['mass cut'] = self.minimum_mass
 
-- 
2.43.0


From 14b0c862b82b11ee65ff09f0dd027c1bb69c5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 026/105] fix: eval_stat_evo leaves the caller's keyword
 arguments alone

---
 simim/lightcone/lchandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ddc9032..0ab36d2 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -185,6 +185,7 @@ class LCHandler(Handler):
         redshift_bins = np.sort(redshift_bins)
         
         inds_active_save = np.copy(self.inds_active)
+        other_kws = other_kws.copy()
 
         vals = []
         for bin in range(len(redshift_bins)-1):
-- 
2.43.0


From 91eefd184b6e2b3ba9ef69d1e7eb9968743044d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 027/105] fix: eval_stat_evo restores the number of active
 halos together with the active indices

---
 simim/lightcone/lchandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 0ab36d2..c3e27ca 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -215,6 +215,7 @@ class LCHandler(Handler):
 
         # Reset active inds
         self.inds_active = np.copy(inds_active_save)
+        self.nhalos_active = len(self.inds_active)
 
         return redshift_bins, vals
 
-- 
2.43.0


From 69065597fdd14b8a665bbe0f9d2872b4491326b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 028/105] fix: compute the volume of light spheres, which have
 no opening angle

---
 simim/lightcone/lchandler.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index c3e27ca..63ce1fd 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -134,6 +134,22 @@ class LCHandler(Handler):
         if shape == None:
             shape=self.metadata['shape']
         
+        # Light spheres have a fixed geometry
+        sphere_areas = {'sphere':4*np.pi,'hemisphere':2*np.pi,'quarter':np.pi,'eighth':np.pi/2}
+        if self.metadata['shape'] in sphere_areas:
+            if shape != self.metadata['shape'] or open_angle is not None or aspect_ratio is not None:
+                raise ValueError("shape, open_angle, and aspect_ratio cannot be changed for light spheres")
+            if redshift_min < self.metadata['minimum redshift']:
+                raise ValueError("redshift_min lower than minimum of lightcone")
+            if redshift_max > self.metadata['maximum redshift']:
+                raise ValueError("redshift_max higher than maximum of lightcone")
+            v2 = self.cosmo.comoving_volume(redshift_max).value
+            v1 = self.cosmo.comoving_volume(redshift_min).value
+            volume = (v2-v1) * sphere_areas[shape]/(4*np.pi)
+            if in_h_units:
+                volume *= self.h**3
+            return volume
+
         if open_angle == None:
             open_angle=self.metadata['open angle']
         if aspect_ratio == None:
-- 
2.43.0


From f8500446ca73fbe7c96dad058a2e370a3ac2f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 029/105] fix: LCIterator works for sets of light spheres

---
 simim/lightcone/lchandler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 63ce1fd..5a46e80 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -567,7 +567,10 @@ class LCIterator():
 
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
-        for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
+        attrs = ['cosmo','shape','minimum_redshift','maximum_redshift']
+        if ref_lc.shape in ['circle','box']:
+            attrs += ['open_angle','aspect_ratio']
+        for attr in attrs:
             setattr(self,attr,getattr(ref_lc,attr))
             for i_lc in self.lc_numbers[1:]:
                 if getattr(self.lc_handlers[str(i_lc)],attr) != getattr(self,attr):
-- 
2.43.0


From e1da722b5ba39ce4bebee575a3d2094677f312be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 030/105] fix: gridding a light sphere asks for angular limits
 instead of failing on the missing opening angle

---
 simim/lightcone/lchandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 5a46e80..3c8c2fe 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -293,6 +293,8 @@ class LCHandler(Handler):
             z = restfreq/(1+z)
         props = np.array([self.return_property(p,in_h_units=in_h_units,use_all_inds=use_all_inds) for p in property_names]).T
         
+        if (ralim is None or declim is None) and self.shape not in ['circle','box']:
+            raise ValueError("ralim and declim must be specified for light cones without an opening angle")
         if ralim is None:
             ralim = (-self.open_angle/2,self.open_angle/2)
         if declim is None:
-- 
2.43.0


From e8a5d948df61ddb6237b75fcaef011cc5ae74cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 031/105] fix: LCHandler.animate uses limits in the same units
 as the positions

---
 simim/lightcone/lchandler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 3c8c2fe..fa7fca6 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -369,9 +369,10 @@ class LCHandler(Handler):
         redshift = self.return_property('redshift',use_all_inds=use_all_inds,in_h_units=in_h_units)
 
         # Get limits
-        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * self.h * self.metadata['open angle']
-        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * self.h
-        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * self.h
+        h_scale = self.h if in_h_units else 1
+        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * h_scale * self.metadata['open angle']
+        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * h_scale
+        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * h_scale
         obs_lim_xy = self.metadata['open angle'] * 180/np.pi*60
         obs_lim_zmax = self.metadata['maximum redshift']
         obs_lim_zmin = self.metadata['minimum redshift']
@@ -466,7 +467,7 @@ class LCHandler(Handler):
 
         def animate(i):
             #title
-            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))*u.Mpc)
+            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))/h_scale*u.Mpc)
             title.set_text('redshift = {:.2f}'.format(redshift))
 
             #animate p1
@@ -484,7 +485,7 @@ class LCHandler(Handler):
             #animate p3
             radec_scatter.set_sizes(new_sizes)
 
-            r = self.cosmo.comoving_transverse_distance(redshift) * self.metadata['open angle']/2
+            r = self.cosmo.comoving_transverse_distance(redshift).value * h_scale * self.metadata['open angle']/2
             if outline == 'circle':
                 xy_outline.set_data(r*np.cos(theta),r*np.sin(theta))
             else:
-- 
2.43.0


From e04b244cf3a389a5c2b065a877719001740b09df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 032/105] fix: place grid axis edges half way between the
 centers

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 84e099e..34cc246 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -19,7 +19,7 @@ from matplotlib import animation
 def _axis_edges(ax):
     """Given bin centers (ax) along an axis return the bin edges"""
     diff = np.diff(ax)
-    newax = ax[:-1] + diff
+    newax = ax[:-1] + diff/2
     newax = np.concatenate(([ax[0]-diff[0]/2], newax, [ax[-1]+diff[-1]/2]))
     return newax
     
-- 
2.43.0


From 46b32984e3d3be82a03377049977c5adf7c466b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 033/105] fix: pad grids given axes in any order by the right
 amount

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 34cc246..a925c0e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -306,7 +306,7 @@ class Grid():
                         pad_full.append((0,0))
                         unpad_full.append((-pad[i_pad],-pad[i_pad]))
 
-                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[ax[i]]
+                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[i_pad]
                     if self.fourier_space[i]:
                         new_side_length[i] = self.side_length[i]
                         new_pixel_size[i] = self.side_length[i] / new_n_pixels[i]
-- 
2.43.0


From 11c2d5ec10433784ada79bc95ad790cba206a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 034/105] fix: keep grid geometry in floats when it is given as
 integers

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a925c0e..a64db60 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -128,18 +128,18 @@ class Grid():
         self.n_objects = 0
 
         # Handle center_point inputs:
-        self.center_point = np.array(center_point,ndmin=1,copy=True)
+        self.center_point = np.array(center_point,ndmin=1,copy=True,dtype=float)
         self.n_dimensions = len(self.center_point)
 
         # Handle side_length inputs:
-        self.side_length = np.array(side_length,ndmin=1,copy=True)
+        self.side_length = np.array(side_length,ndmin=1,copy=True,dtype=float)
         if len(self.side_length) == 1:
             self.side_length = np.ones(self.n_dimensions)*self.side_length[0]
         if len(self.side_length) != self.n_dimensions:
             raise ValueError("side_length don't match data dimensionality")
 
         # Handle pixel_size inputs
-        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True)
+        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True,dtype=float)
         if len(self.pixel_size) != self.n_dimensions:
             if len(self.pixel_size) == 1:
                 self.pixel_size = np.ones(self.n_dimensions)*self.pixel_size[0]
-- 
2.43.0


From 634c97165a7e215c3ae5478f638e8d5bef44d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 035/105] fix: do not truncate grid unit names when they are
 changed

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a64db60..58e9174 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -151,17 +151,17 @@ class Grid():
             self.axunits = np.array([None for i in range(self.n_dimensions)])
             self.fourier_axunits = np.array([None for i in range(self.n_dimensions)])
         else:
-            self.axunits = np.array(axunits,ndmin=1,copy=True)
+            self.axunits = np.array(axunits,ndmin=1,copy=True,dtype=object)
             if len(self.axunits) == 1:
                 self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)])
             if len(self.axunits) != self.n_dimensions:
                 raise ValueError("axunits don't match data dimensionality")
-            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1)
+            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1,dtype=object)
 
         if gridunits is None:
             self.gridunits = np.array([None for i in range(self.n_properties)])
         else:
-            self.gridunits = np.array(gridunits,ndmin=1,copy=True)
+            self.gridunits = np.array(gridunits,ndmin=1,copy=True,dtype=object)
             if len(self.gridunits) == 1:
                 self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)])
             if len(self.gridunits) != self.n_properties:
-- 
2.43.0


From 4f9b42b8322f98abe1efe03f3ea30f493c58fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 036/105] fix: scale_axis applies each factor and unit to the
 axis it was given for

---
 simim/map/gridder.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 58e9174..f543acf 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -432,11 +432,11 @@ class Grid():
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
-        for i in ax:
+        for j,i in enumerate(ax):
             if scalecenter:
-                self.center_point[i] *= factor[i]
-            self.side_length[i] *= factor[i]
-            self.pixel_size[i] *= factor[i]
+                self.center_point[i] *= factor[j]
+            self.side_length[i] *= factor[j]
+            self.pixel_size[i] *= factor[j]
 
             # Handle units inputs:
             if axunits is None:
@@ -449,22 +449,22 @@ class Grid():
                 self.axunits[i] = axunits
                 self.fourier_axunits[i] = axunits+'^-1'
             elif len(np.array(axunits,ndmin=1,copy=True))==len(ax):
-                self.axunits[i] = axunits[i]
-                self.fourier_axunits[i] = axunits[i]+'^-1'
+                self.axunits[i] = axunits[j]
+                self.fourier_axunits[i] = axunits[j]+'^-1'
             else:
                 raise ValueError('length of axunits must be 1 or match the length of ax')
 
             # Set up the grid - make sure the side length is compatible with
             # number of pixels
             if scalecenter:
-                self.axes[i] = self.axes[i]*factor[i]
-                self.axes_centers[i] = self.axes_centers[i]*factor[i]
+                self.axes[i] = self.axes[i]*factor[j]
+                self.axes_centers[i] = self.axes_centers[i]*factor[j]
             else:
-                self.axes[i] = (self.axes[i]-self.center[i])*factor[i] + self.center[i]
-                self.axes_centers[i] = (self.axes_centers[i]-self.center[i])*factor[i] + self.center[i]
+                self.axes[i] = (self.axes[i]-self.center_point[i])*factor[j] + self.center_point[i]
+                self.axes_centers[i] = (self.axes_centers[i]-self.center_point[i])*factor[j] + self.center_point[i]
 
-            self.fourier_axes[i] = self.fourier_axes[i]/factor[i]
-            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[i]
+            self.fourier_axes[i] = self.fourier_axes[i]/factor[j]
+            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[j]
 
 
     def copy_axes(self,n_properties=1):
-- 
2.43.0


From fdf1e6c6653c674d5d486fab5b9e0734f886b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 037/105] fix: keep data units in step with the properties of a
 grid

---
 simim/map/gridder.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f543acf..a2aaace 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -476,12 +476,17 @@ class Grid():
             The number of properties to include in the new grid
 
         """
+        gridunits = self.gridunits
+        if n_properties != self.n_properties:
+            # Units only carry over where all properties share them
+            gridunits = self.gridunits[:1] if all(u==self.gridunits[0] for u in self.gridunits) else None
+
         grid_copy = Grid(n_properties=n_properties,
                           center_point=np.copy(self.center_point),
                           side_length=np.copy(self.side_length),
                           pixel_size=np.copy(self.pixel_size),
                           axunits=np.copy(self.axunits),
-                          gridunits=np.copy(self.gridunits))
+                          gridunits=gridunits)
         
         return grid_copy
 
@@ -500,6 +505,7 @@ class Grid():
         n_properties = len(properties)
 
         grid_copy = self.copy_axes(n_properties)
+        grid_copy.gridunits = np.copy(self.gridunits[properties])
         
         if self.grid_active:
             grid_copy.grid = np.copy(self.grid[...,tuple(properties)])
@@ -570,6 +576,7 @@ class Grid():
 
             self.grid = np.concatenate((self.grid,value),axis=-1)
             self.n_properties += value.shape[-1]
+            self.gridunits = np.concatenate((self.gridunits,[None]*value.shape[-1]))
 
         # Different behavior if grid isn't activated yet
         if not self.grid_active:
@@ -577,6 +584,7 @@ class Grid():
                 raise ValueError("data array for this Grid has not been initialized, cannot add new values in property array -- use add_new_prop(value=None) to add an empty new property without initializing grid")
             else:
                 self.n_properties += 1
+                self.gridunits = np.concatenate((self.gridunits,[None]))
 
 
 
-- 
2.43.0


From edb94580ffc59365c151da079ad5cdaba2fe5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 038/105] fix: add_from_cat uses the values listed for each
 property

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a2aaace..6522908 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -665,11 +665,11 @@ class Grid():
                 if values.shape[1] != len(properties) and values.shape[1] != 1:
                     raise ValueError("Values array does not contain the correct number of properties.")
 
-                for ip in properties:
+                for iv,ip in enumerate(properties):
                     if values.shape[1] == 1:
                         v = values.flatten()
                     else:
-                        v = values[:,ip]
+                        v = values[:,iv]
                     np.add.at(self.grid,positions+(ip,),v)
 
             # Count the number of objects
-- 
2.43.0


From ef67ffad950436dc007a0ca09d743ea986cca76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 039/105] fix: accept integer positions when gridding and
 sampling

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6522908..806b151 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -629,7 +629,7 @@ class Grid():
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
-            positions = np.array(positions,ndmin=1,copy=True)
+            positions = np.array(positions,ndmin=1,copy=True,dtype=float)
             if positions.shape[0] > 0:
                 if positions.shape[1] !=self.n_dimensions:
                     raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
@@ -1032,7 +1032,7 @@ class Grid():
         properties = tuple(properties)
 
         # Make sure the positions array is in the right shape and matches the dimensions of the grid
-        positions = np.array(positions,ndmin=1,copy=True)
+        positions = np.array(positions,ndmin=1,copy=True,dtype=float)
         if positions.shape[0] > 0:
             if positions.shape[1] != self.n_dimensions:
                 raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
-- 
2.43.0


From 4fe5d22378cdbe00dbc557753befc1df185f69b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 040/105] fix: adding an empty catalog to a grid still makes
 the requested new properties

---
 simim/map/gridder.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 806b151..97d3517 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -619,13 +619,10 @@ class Grid():
         
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                positions = positions.reshape((positions.shape[0],1))
-
-                if new_props:
-                    new_n_properties = values.shape[1]
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
-                    self.add_new_prop(new_grid)
+            if new_props:
+                new_n_properties = np.shape(values)[1] if np.ndim(values) > 1 else 1
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
+                self.add_new_prop(new_grid)
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
@@ -718,11 +715,10 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.add_new_prop(new_grid)
-            
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
+
             return
 
         # Otherwise make sure the positions and values arrays are in the right shapes and match the shape of the grid
@@ -881,11 +877,10 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.new_prop(new_grid)
-            
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
+
             return
 
         # Otherwise make sure the positions and spec_function_arguments arrays are in the right shapes and match the shape of the grid
-- 
2.43.0


From 4797b33be3be34c7e7aba404cc5d050fdb165a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 041/105] fix: down_sample works on any subset of axes and with
 factors that do not divide them

---
 simim/map/gridder.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 97d3517..4d5487c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1177,7 +1177,7 @@ class Grid():
         
         factor = np.array(factor,ndmin=1).astype(int)
         if len(factor) == 1:
-            factor = np.ones(len(ax))*factor[0]
+            factor = np.ones(len(ax),dtype=int)*factor[0]
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
@@ -1193,17 +1193,17 @@ class Grid():
         else:
             raise ValueError("mode not recognized - must be 'average' or 'sum'.")
 
-        for axi in ax:
+        for axi,fac in zip(ax,factor):
             shape = np.concatenate((self.n_pixels,[self.n_properties]))
-            shape[axi] = shape[axi]//factor[axi]
+            shape[axi] = shape[axi]//fac
 
             # Downsample
-            new_ax_centers = np.zeros(self.axes_centers[axi].shape)
+            new_ax_centers = np.zeros(shape[axi])
             new_grid = np.zeros(shape)
             for i in range(shape[axi]):
-                slice_ax = slice(i*factor[axi],(i+1)*factor[axi])
-                slices = [slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1)]
-                slices_new = [slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1)]
+                slice_ax = slice(i*fac,(i+1)*fac)
+                slices = tuple(slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1))
+                slices_new = tuple(slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1))
 
                 if self.grid_active:
                     new_grid[slices_new] = use_function(self.grid[slices],axis=axi)
@@ -1213,9 +1213,9 @@ class Grid():
             if self.grid_active:
                 self.grid = new_grid
             self.axes_centers[axi] = new_ax_centers
-            self.axes[axi] = np.concatenate((new_ax_centers-(factor[axi]*self.pixel_size[axi])/2, [new_ax_centers[-1]+(factor[axi]*self.pixel_size[axi])/2]))
-            self.pixel_size[axi] = self.pixel_size[axi]*factor[axi]
-            self.n_pixels[axi] = self.n_pixels[axi]//factor[axi]
+            self.axes[axi] = np.concatenate((new_ax_centers-(fac*self.pixel_size[axi])/2, [new_ax_centers[-1]+(fac*self.pixel_size[axi])/2]))
+            self.pixel_size[axi] = self.pixel_size[axi]*fac
+            self.n_pixels[axi] = self.n_pixels[axi]//fac
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-- 
2.43.0


From 2ea3d21911b58907e539611e32ecaed1fb580678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 042/105] fix: collapse_dimension leaves the weights alone and
 collapses several axes

---
 simim/map/gridder.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4d5487c..62cd8a3 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1269,6 +1269,7 @@ class Grid():
             weights = [np.ones(len(self.axes_centers[i])) for i in ax]
         elif len(ax) == 1:
             weights = [weights]
+        weights = list(weights)
 
         if len(weights) != len(ax):
             raise ValueError("Must provide a weights array for each axis to collapse")
@@ -1289,26 +1290,24 @@ class Grid():
                 elif weights[i].ndim == self.n_dimensions+1:
                     if weights[i].shape != self.grid.shape:
                         raise ValueError("Weights must match shape of grid")
-                    weights[i] = np.expand_dims(weights[i],-1)
                 else:
                     raise ValueError("Weights for axis {} must match size of grid. {} // {}".format(ax[i],len(weights[i]),len(self.axes_centers[ax[i]])))
         
+        # Combine the weights so that all axes can be collapsed at once
+        total_weights = np.ones([1]*(self.n_dimensions+1))
+        for w in weights:
+            total_weights = total_weights * w
+
         if mode=='sum':
-            norm = [1 for i in ax]
+            norm = 1
         elif mode=='average':
-            norm = []
-            for i in range(len(ax)):
-                if weights[i].ndim == 1:
-                    norm.append(np.sum(weights[i]))
-                else:
-                    norm.append(np.sum(weights[i],axis=ax[i]))
+            norm = np.sum(total_weights,axis=tuple(ax))
         else:
             raise ValueError("mode not recognized - options are 'sum','average'")
 
         # Do the dang thing
         if in_place:
-            for i in range(len(ax)):
-                self.grid = np.sum(self.grid*weights[i],axis=ax[i]) / norm[i]
+            self.grid = np.sum(self.grid*total_weights,axis=tuple(ax)) / norm
 
             # Update grid
             self.n_pixels = self.n_pixels[ax_keep]
@@ -1331,15 +1330,14 @@ class Grid():
         else:
             newgrid = self.copy()
 
-            for i in range(len(ax)):
-                newgrid.grid = np.sum(newgrid.grid*weights[i],axis=ax[i]) / norm[i]
+            newgrid.grid = np.sum(newgrid.grid*total_weights,axis=tuple(ax)) / norm
 
             # Update grid
             newgrid.n_pixels = self.n_pixels[ax_keep]
-            newgrid.axes = [self.axes[i] for i in range(self.n_dimensions) if i not in ax]
-            newgrid.axes_centers = [self.axes_centers[i] for i in range(self.n_dimensions) if i not in ax]
-            newgrid.fourier_axes = [self.fourier_axes[i] for i in range(self.n_dimensions) if i not in ax]
-            newgrid.fourier_axes_centers = [self.fourier_axes_centers[i] for i in range(self.n_dimensions) if i not in ax]
+            newgrid.axes = [np.copy(self.axes[i]) for i in range(self.n_dimensions) if i not in ax]
+            newgrid.axes_centers = [np.copy(self.axes_centers[i]) for i in range(self.n_dimensions) if i not in ax]
+            newgrid.fourier_axes = [np.copy(self.fourier_axes[i]) for i in range(self.n_dimensions) if i not in ax]
+            newgrid.fourier_axes_centers = [np.copy(self.fourier_axes_centers[i]) for i in range(self.n_dimensions) if i not in ax]
 
             newgrid.axunits = self.axunits[ax_keep]
             newgrid.fourier_axunits = self.fourier_axunits[ax_keep]
-- 
2.43.0


From bb40ff46c0abb25069b0c1d486199cb1eef5aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 043/105] fix: a power spectrum over some axes only marks those
 axes as Fourier space

---
 simim/map/gridder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 62cd8a3..0ec3992 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1563,7 +1563,6 @@ class Grid():
             powspec.is_power_spectrum = True
             powspec.n_objects = self.n_objects
             powspec.fourier_space = np.copy(self.fourier_space)
-            powspec.fourier_space[:] = True
 
             # Invert fourier transforms
             if not cross_grid is None:
-- 
2.43.0


From 37ab31cc37f770eff389b976a3296976b644d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 044/105] fix: refuse cross power spectra of grids with
 different shapes before transforming them

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0ec3992..0e1ee81 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1466,6 +1466,8 @@ class Grid():
                 raise ValueError("This cross_grid is already a power spectrum")
             if cross_grid.n_dimensions != self.n_dimensions:
                 raise ValueError("grid n_dimensions ({}) does not match cross_grid ({})".format(self.n_dimensions,cross_grid.n_dimensions))
+            if np.any(cross_grid.n_pixels != self.n_pixels):
+                raise ValueError("grid n_pixels ({}) does not match cross_grid ({})".format(self.n_pixels,cross_grid.n_pixels))
             if cross_grid.n_properties != 1 and self.n_properties != 1:
                 if cross_grid.n_properties != self.n_properties:
                     raise ValueError("grid n_properties ({}) is not compatible cross_grid ({})".format(self.n_properties,cross_grid.n_properties))
-- 
2.43.0


From 2a46689f396f698cbf1baf3e14e761fa03738d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 045/105] fix: count the properties of cross power spectra and
 convolutions with several properties

---
 simim/map/gridder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0e1ee81..2c9e4b7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1135,6 +1135,8 @@ class Grid():
         if in_place:
             self.pad(ax,pad)
             self.grid = fftconvolve(self.grid,source.grid.reshape(shape),axes=ax,mode='same')
+            self.n_properties = self.grid.shape[-1]
+            self.gridunits = np.resize(self.gridunits,self.n_properties)
             self.pad(ax,-pad)
 
             return self
@@ -1144,6 +1146,8 @@ class Grid():
 
             convgrid.pad(ax,pad)
             convgrid.grid = fftconvolve(convgrid.grid,source.grid.reshape(shape),axes=ax,mode='same')
+            convgrid.n_properties = convgrid.grid.shape[-1]
+            convgrid.gridunits = np.resize(convgrid.gridunits,convgrid.n_properties)
             convgrid.pad(ax,-pad)
 
             return convgrid
@@ -1528,6 +1532,8 @@ class Grid():
                 #     if not self.gridunits[i] is None:
                 #         self.gridunits[i] += '^2' + unit_end
 
+            self.n_properties = self.grid.shape[-1]
+            self.gridunits = np.resize(self.gridunits,self.n_properties)
             self.is_power_spectrum = True
             # for i in range(len(self.gridunits)):
             #     if not self.gridunits[i] is None:
@@ -1561,6 +1567,8 @@ class Grid():
                 #     if not self.gridunits[i] is None:
                 #         self.gridunits[i] += '^2' + unit_end
 
+            powspec.n_properties = powspec.grid.shape[-1]
+            powspec.gridunits = np.resize(powspec.gridunits,powspec.n_properties)
             powspec.grid_active = True
             powspec.is_power_spectrum = True
             powspec.n_objects = self.n_objects
-- 
2.43.0


From 20bd82f4092ce2e2ecfd92d927240fc5037778da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 046/105] fix: spherical_average keeps the outermost shell

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 2c9e4b7..b135242 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1736,7 +1736,7 @@ class Grid():
         # Determine the correct bin for each cell - digitize data into shells
         # and then get indices of dimensions that aren't being flattened
         bins_for_cells = np.digitize(rad,shells) - 1
-        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-2))
+        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-1))
         coords_for_cells = np.indices(self.grid.shape)
         coords_for_cells = [bins_for_cells] + \
                            [coords_for_cells[i_ax].flatten() for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + \
@@ -1770,7 +1770,7 @@ class Grid():
         # Compute standard deviation if requested
         if return_std:
 
-            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-2))
+            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-1))
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
-- 
2.43.0


From a25d956e6edf79d91bfcda058a3a27b6ade5af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 047/105] fix: spherical_average does not round weights to
 integers

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b135242..b871abc 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1757,7 +1757,7 @@ class Grid():
         binned_averages = np.zeros(binned_shape,dtype=dtype_data)
         np.add.at(binned_averages,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(self.grid*weights).flatten()[good_inds].reshape(-1,1))
 
-        binned_weights = np.zeros(binned_shape,dtype=int)
+        binned_weights = np.zeros(binned_shape)
         np.add.at(binned_weights,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights).flatten()[good_inds].reshape(-1,1))
 
         binned_averages /= binned_weights
@@ -1782,7 +1782,7 @@ class Grid():
             if biased_std:
                 binned_std = np.sqrt(binned_std/binned_weights)
             else:
-                binned_weights2 = np.zeros(binned_shape,dtype=int)
+                binned_weights2 = np.zeros(binned_shape)
                 np.add.at(binned_weights2,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights**2).flatten()[good_inds].reshape(-1,1))
 
                 binned_std = np.sqrt(binned_std/(binned_weights-binned_weights2/binned_weights))
-- 
2.43.0


From 7adcec5398d6bcc9cf79b7ea26e580e112ea44c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 048/105] fix: Grid.animate with still=True does not return an
 undefined animation

---
 simim/map/gridder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b871abc..41adfc5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1970,6 +1970,7 @@ class Grid():
             if save != None:
                 anim.save(save+'.mp4')
         else:
+            anim = None
             if save != None:
                 plt.savefig(save)
 
-- 
2.43.0


From ff5fa2e31a64de49d92f184b672a738baad8de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 049/105] fix: SpectralPSF keeps the edges of the spectral axis

---
 simim/map/gridder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 41adfc5..4a51af7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2276,7 +2276,7 @@ class SpectralPSF(Grid):
             raise ValueError("norm option not recognized")
 
         self.fwhm0 = np.array(fwhm0,ndmin=1,copy=True)
-        spec_axis = np.array(spec_axis,ndmin=1,copy=True)
+        spec_axis = np.sort(np.array(spec_axis,ndmin=1,copy=True))
 
         n_dimensions = self.fwhm0.shape[0] + 1
         center_point = np.zeros(self.fwhm0.shape[0])
@@ -2300,7 +2300,6 @@ class SpectralPSF(Grid):
         pixel_size = np.concatenate((pixel_size,[np.abs(spec_axis[1]-spec_axis[0])]))
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits=None)
-        self.axes[-1] = spec_axis
 
         # Make the grid
         sig = self.fwhm0 / (2*np.sqrt(2*np.log(2)))
-- 
2.43.0


From fb1fc33fd93ea145181367d217b3828b7ac219a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 050/105] fix: GridFromAxes keeps the pixel count its axes were
 made for

---
 simim/map/gridder.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4a51af7..3a04f33 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2374,14 +2374,6 @@ class GridFromAxes(Grid):
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits)
 
-        n_pixels_decimal = self.side_length/self.pixel_size
-        n_pixels_ceil = np.ceil(n_pixels_decimal)
-        if np.any(n_pixels_decimal != n_pixels_ceil):
-            self.side_length = self.pixel_size * n_pixels_ceil
-            if (not side_length is None) and (not center_point is None):
-                warnings.warn("Side lengths increased to accomodate integer number of pixels")
-        self.n_pixels = n_pixels_ceil.astype('int')
-
 class GridFromAxesAndFunction(GridFromAxes):
     def __init__(self,function,*axes,function_kwargs={},n_properties=1,axunits=None,gridunits=None):
         """Initialize a Grid from a set of axes and populate it using a function
-- 
2.43.0


From 019cb7af177c5e5c31084df6c1bde4a7c9a69dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 051/105] fix: Grid.save checks for the file it will actually
 write

---
 simim/map/gridder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 3a04f33..541807a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -538,6 +538,10 @@ class Grid():
         else:
             savefunc = np.savez
 
+        path = str(path)
+        if not path.endswith('.npz'):
+            path += '.npz' # numpy adds this, so check for the file it will write
+
         if os.path.exists(path) and not overwrite:
             raise ValueError("The file you are trying to create already exists")
 
-- 
2.43.0


From 7f5d73f93cd0d7efc414efc514770378a4c07a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 052/105] fix: sum_properties keeps the Fourier and power
 spectrum state in the new grid

---
 simim/map/gridder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 541807a..4c01874 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -988,6 +988,9 @@ class Grid():
             new_grid = self.copy_axes(n_properties=1)
             new_grid.init_grid()
             new_grid.grid = sum_grid
+            new_grid.fourier_space = np.copy(self.fourier_space)
+            new_grid.is_power_spectrum = self.is_power_spectrum
+            new_grid.n_objects = self.n_objects
 
             return new_grid
 
-- 
2.43.0


From c69ae5139adc3a9b327d57fb6eb9003394b729e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 053/105] fix: refuse to convolve with a source that is not a
 map

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4c01874..5a23213 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1104,6 +1104,8 @@ class Grid():
             raise ValueError("No source grid is initialized.")
         if self.is_power_spectrum:
             raise ValueError("This grid is a power spectrum, not a map")
+        if np.any(source.fourier_space) or source.is_power_spectrum:
+            raise ValueError("source grid is not a map")
 
         # If the grid we convolve with has higher dimension than self, raise an error
         if source.grid.ndim > self.grid.ndim:
-- 
2.43.0


From d3b00e9a0268b74ad59a33aa34b674f3547760e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 054/105] fix: grids may have a single cell along an axis

---
 simim/map/gridder.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5a23213..510ff2e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -16,8 +16,13 @@ from matplotlib import animation
 ###############################################################################
 ##### SECTION 0: Helper Functions #############################################
 ###############################################################################
-def _axis_edges(ax):
-    """Given bin centers (ax) along an axis return the bin edges"""
+def _axis_edges(ax,width=None):
+    """Given bin centers (ax) along an axis return the bin edges
+    
+    For an axis with only one bin its width must be specified"""
+    if len(ax) == 1:
+        return np.array([ax[0]-width/2, ax[0]+width/2])
+
     diff = np.diff(ax)
     newax = ax[:-1] + diff/2
     newax = np.concatenate(([ax[0]-diff[0]/2], newax, [ax[-1]+diff[-1]/2]))
@@ -190,7 +195,7 @@ class Grid():
             self.axes.append(axis)
 
             self.fourier_axes_centers.append(np.fft.fftshift(np.fft.fftfreq(self.n_pixels[i],self.pixel_size[i])))
-            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i]))
+            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i],1/self.side_length[i]))
 
         self.fourier_space = np.zeros(self.n_dimensions,dtype=bool)
 
@@ -318,7 +323,7 @@ class Grid():
                     new_axes_centers[i] = new_axes[i][:-1] + new_pixel_size[i]/2
 
                     new_fourier_axes_centers[i] = np.fft.fftshift(np.fft.fftfreq(new_n_pixels[i],new_pixel_size[i]))
-                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i])
+                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i],1/new_side_length[i])
 
         # Won't pad properties array:
         pad_full.append((0,0))
@@ -394,7 +399,7 @@ class Grid():
         self.side_length[ax] = np.ptp(self.axes[ax])
         self.center_point[ax] = np.min(self.axes[ax]) + self.side_length[ax]/2
         self.fourier_axes_centers[ax] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[ax],self.pixel_size[ax]))
-        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax])
+        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax],1/self.side_length[ax])
 
 
     # Should expand this method to support linear transformations
@@ -1232,7 +1237,7 @@ class Grid():
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi])
+            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi],1/self.side_length[axi])
 
 
     def collapse_dimension(self,ax,in_place=True,weights=None,mode='average'):
@@ -1902,19 +1907,19 @@ class Grid():
         else:
             ax0 = self.axes_centers[slide_dim] - self.pixel_size[slide_dim]/2
         slide_ax = np.copy(ax0)
-        ax0 = _axis_edges(np.copy(ax0))
+        ax0 = _axis_edges(np.copy(ax0),self.pixel_size[slide_dim])
 
         if self.fourier_space[face_dims[0]]:
             ax1 = self.fourier_axes_centers[face_dims[0]]
         else:
             ax1 = self.axes_centers[face_dims[0]]
-        ax1 = _axis_edges(np.copy(ax1))
+        ax1 = _axis_edges(np.copy(ax1),self.pixel_size[face_dims[0]])
 
         if self.fourier_space[face_dims[1]]:
             ax2 = self.fourier_axes_centers[face_dims[1]]
         else:
             ax2 = self.axes_centers[face_dims[1]]
-        ax2 = _axis_edges(np.copy(ax2))
+        ax2 = _axis_edges(np.copy(ax2),self.pixel_size[face_dims[1]])
 
         # Determine property range allowed
         if logscale:
-- 
2.43.0


From 30d00ac43341a98cd93fb238b8f87033b55d64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 055/105] fix: check field_property_idx against the properties
 of the grid

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 29b5777..9d275f5 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -672,7 +672,7 @@ class Instrument:
 
         if field_property_idx is None:
             field_property_idx = 0
-        if field_property_idx > grid.n_dimensions-1 or field_property_idx < 0:
+        if field_property_idx > grid.n_properties-1 or field_property_idx < 0:
             raise ValueError(f"grid does not have property {field_property_idx}")
         if _check:
             _check_grid_detector_compatibility(self,grid,field_property_idx)
-- 
2.43.0


From 90efa25643cac3be4481cb77c8c186484ed7574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 056/105] fix: check the unit of the property being observed

---
 simim/instrument/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index a35f977..3cca116 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -89,7 +89,7 @@ def _check_grid_detector_compatibility(detector,grid,field_property_idx):
         warnings.warn("Detector unit for flux not specified. Assuming it matches grid unit")
     else:
         try: 
-            _check_unit(grid.gridunits,'flux')
+            _check_unit(grid.gridunits[field_property_idx],'flux')
         except:
             raise ValueError("grid flux unit not recognized")
         if grid.gridunits[field_property_idx] != detector.flux_unit:
-- 
2.43.0


From e4ffce814eb872dfcfa53988161786d8e7bf5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 057/105] fix: map the requested property of a field

---
 simim/instrument/instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 9d275f5..fe68ebb 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -890,11 +890,12 @@ class Instrument:
                     idx = self.detector_names.index(d)
                     all_detector_maps[idx] = detector_map.grid
 
-            all_detector_maps = np.stack(all_detector_maps,axis=2)[:,:,:,0] # Couldn't figure out why stacking was adding another dim, indexing is a hacky fix
+            all_detector_maps = np.stack(all_detector_maps,axis=2)[:,:,:,self.field_props[f]] # Couldn't figure out why stacking was adding another dim, indexing is a hacky fix
 
             # Hijack last 2d grid and turn it into a grid with each map as a property
             detector_map.grid = all_detector_maps
             detector_map.n_properties = len(self.detector_names)
+            detector_map.gridunits = np.repeat(field.gridunits[self.field_props[f]],detector_map.n_properties)
 
             # Save the result
             self.maps[f] = detector_map
-- 
2.43.0


From ea6ac4bef51984d6d1f76ce87f1a5b8ecbf8218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 058/105] fix: accept an integer kernel_size

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index fe68ebb..da5ad60 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -784,6 +784,8 @@ class Instrument:
 
         if kernel_size is None:
             kernel_size = np.round(self.best_spatial_res / field.pixel_size[:2]).astype(int) * 10 + 1
+        else:
+            kernel_size = np.ones(2,dtype=int) * kernel_size
         
         # Check that the value of norm is recognized
         if spatial_response_norm not in ['peak','area','none']:
-- 
2.43.0


From 76ee0b765fc17bf5d5bede9c31ba88410469cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 059/105] fix: build beams for fields with several properties

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index da5ad60..1c8ad3e 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -796,7 +796,7 @@ class Instrument:
         side_length = [kernel_size[0]*field.pixel_size[0],kernel_size[1]*field.pixel_size[1],field.side_length[2]]
 
         # Evaluate beam response over kernel axes
-        beam = Grid(n_properties=1,center_point=center,side_length=side_length,pixel_size=field.pixel_size,axunits=field.axunits,gridunits=field.gridunits)
+        beam = Grid(n_properties=1,center_point=center,side_length=side_length,pixel_size=field.pixel_size,axunits=field.axunits)
         beam.init_grid()
 
         shape = beam.grid.shape
-- 
2.43.0


From 5bcac5890b579a69201b7d46654b43ecc5706d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 060/105] fix: del_fields forgets fields that were never mapped

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 1c8ad3e..4bb1297 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -722,7 +722,7 @@ class Instrument:
 
             if f in self.maps:
                 self.maps.pop(f)
-                self.maps_consistent.pop(f)
+            self.maps_consistent.pop(f)
 
 
     def _find_spatial_clones(self) -> list:
-- 
2.43.0


From 8679cdf66d9d28b25fbf25acfdd53a62fa9cb304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 061/105] fix: plot_spectral_response uses the detector
 frequencies

---
 simim/instrument/instrument.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 4bb1297..a20d385 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1085,9 +1085,9 @@ class Instrument:
         """
     
         if fmin is None:
-            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values])
+            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values()])
         if fmax is None:
-            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values])
+            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values()])
 
         fig,axes = plt.subplots(1,1,figsize=figsize)
         fig.subplots_adjust(left=.1,right=.95,top=.95,bottom=.15,wspace=.35)
@@ -1103,8 +1103,7 @@ class Instrument:
         else: 
             cmap = colormaps['Spectral']
 
-        order = np.argsort(self.detector_freqs)
-        for i in np.argsort(self.detector_freqs):
+        for i in np.argsort([self.detectors[d].reffreq for d in self.detector_names]):
             d = self.detectors[self.detector_names[i]]
             axes.plot(f, d.spectral_response(f, **d.spectral_kwargs), color=cmap(i/(len(self.detectors)-.99)))
 
-- 
2.43.0


From 1c0dc20c3c0d3458645065ac4b4ca9f31422f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 062/105] fix: refuse a detector name that stands for the
 instrument

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index a20d385..fddee39 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -495,6 +495,8 @@ class Instrument:
         # Set name
         if name is None:
             name = str(self.detector_counter)
+        if name == 'instrument':
+            raise ValueError("'instrument' is reserved for the instrument defaults and cannot be used as a detector name")
         if name in self.detector_names:
             raise ValueError("Name already in use - this may be because you specified a pre-existing name or because another detector has been given a numerical name that would have been used as a default")
         
-- 
2.43.0


From 4a50773c6b40cd3dc4861eb9aed129463fa68c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 063/105] fix: multi-property definitions keep one h dependence
 per property

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index f4c950d..043ba55 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -65,7 +65,7 @@ class MultiProp():
         if len(h_dependence)==1:
             self.h_dependence = {key:h_dependence[0] for key in self.names}
         elif len(h_dependence)==len(self.names):
-            self.units = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
+            self.h_dependence = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
         else:
             raise ValueError("h_dependence shape not compatible with prop_names shape")
 
-- 
2.43.0


From 4490f9bec88597e61271100f788589b59584dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 064/105] fix: pass keyword arguments on when evaluating
 properties

---
 simim/galprops/galprops.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 043ba55..22bd2d4 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -136,7 +136,7 @@ class MultiProp():
     def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """See evaluate_all - identical functionality. This
         is just a wrapper to match the prop subclass"""
-        return self.evaluate_all(target,use_all_inds,kw_remap)
+        return self.evaluate_all(target,use_all_inds,kw_remap,kw_arguments)
 
 # Function should return an array of length n, where n is the number
 # of objects it is evaluated over, or should be of shape n x m
@@ -188,7 +188,7 @@ class Prop(MultiProp):
         self.unit = units
         self.h_dep = h_dependence
 
-    def evaluate(self,target,use_all_inds=False,kw_remap={}):
+    def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """Apply the property to a target object.
 
         Parameters
@@ -204,6 +204,9 @@ class Prop(MultiProp):
             has kwarg 'x' it will be evaluated on lightcone property 'x', but
             passing the dictionary {'x':'y'} will result in lightcone the
             function being evaluated on lightcone property 'y'.
+        kw_arguments : dict, optional
+            A list of additional keyword arguments to be passed to the property
+            function call
 
         Returns
         -------
@@ -213,7 +216,8 @@ class Prop(MultiProp):
 
         vals = super().evaluate_all(target=target,
                                     use_all_inds=use_all_inds,
-                                    kw_remap=kw_remap)
+                                    kw_remap=kw_remap,
+                                    kw_arguments=kw_arguments)
         return vals[0]
 
 
-- 
2.43.0


From 97d8d6739e5e21f9657af1c8e8a6555739531844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 065/105] fix: raise an error when the Behroozi model is not
 set up

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 9a291c0..a839fb6 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -159,7 +159,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
@@ -199,7 +199,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
-- 
2.43.0


From 95a73b85f08ae0951aa6dd93c9fd68bc6f029952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 066/105] fix: draw Behroozi model scatter from the given rng

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index a839fb6..4e7455c 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -170,7 +170,7 @@ class behroozi13_base():
         sfrval = self.sfr_function.ev(redshift,mass)
 
         if scatter:
-            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True)
+            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return sfrval
 
@@ -210,7 +210,7 @@ class behroozi13_base():
         stellarmassval = self.stellarmass_function.ev(redshift,mass)
 
         if scatter:
-            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True)
+            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return stellarmassval
 
-- 
2.43.0


From 6e0ab4bbe4687d7267cd4acc1234fe8b1f646d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 067/105] fix: write the file that marks the Behroozi tables as
 complete last

---
 simim/galprops/sfr_behroozi13.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 4e7455c..5eed38a 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -95,10 +95,10 @@ class behroozi13_base():
 
         sfr = np.power(10,sfr)
 
-        np.save(os.path.join(self.path,'sfr.npy'),sfr)
         np.save(os.path.join(self.path,'stellarmass.npy'),stellarmass)
         np.save(os.path.join(self.path,'mass_axis.npy'),mass)
         np.save(os.path.join(self.path,'redshift_axis.npy'),redshift)
+        np.save(os.path.join(self.path,'sfr.npy'),sfr)
 
     @pltdeco
     def plot_grid(self,prop='sfr'):
-- 
2.43.0


From 69a273bb367304607f8fa8cee69329d8a32a6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 068/105] fix: compute the IR luminosities the kamenetzky16
 model needs

---
 simim/galprops/line_co.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_co.py b/simim/galprops/line_co.py
index 435d8cb..fe0a656 100644
--- a/simim/galprops/line_co.py
+++ b/simim/galprops/line_co.py
@@ -257,7 +257,9 @@ def kamenetzky16(sfr,
     b_not         = np.array([ 0.8,  0.4,  0.9,  1.2,  2.1,  2.3,  2.8,  2.5,  2.7,  2.5,  2.7,  3.4,  2.2])
     b_sig_not     = np.array([ 0.8,  0.9,  0.4,  0.5,  0.5,  0.4,  0.4,  0.5,  0.5,  0.5,  0.6,  0.4,  0.5])
 
-    L_fir = sfr/d_mf*1e10*fircor
+    sfr = np.array(sfr,ndmin=1)
+    L_ir = sfr/d_mf*1e10
+    L_fir = L_ir*fircor
 
     a_gal = np.zeros((len(sfr), len(lines)))
     b_gal = np.zeros((len(sfr), len(lines)))
@@ -276,8 +278,8 @@ def kamenetzky16(sfr,
         a_gal[:,:] = a[lines]
         b_gal[:,:] = b[lines]
 
-    L_ir = L_ir.reshape(len(sfr),1) * np.ones((1,len(lines)))
-    log_L_co_p = (np.log10(L_ir) - b_gal) / a_gal
+    L_fir = L_fir.reshape(len(sfr),1) * np.ones((1,len(lines)))
+    log_L_co_p = (np.log10(L_fir) - b_gal) / a_gal
     L_co_p = np.power(10,log_L_co_p)
     L_co = L_co_p * 4.9e-5 * (f[lines]/constants.nu_co10)**3
 
-- 
2.43.0


From bde280eb5b4cdf1daacefbc03ebe4a5f115f1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 069/105] fix: draw the yang22 duty cycle from the given rng

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 55eb1be..1ab7ffc 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -57,7 +57,7 @@ def yang22(mass,redshift,line='CII',
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
-        L[np.random.rand(len(L))>f] = 0
+        L[rng.random(len(L))>f] = 0
 
     return L
 
-- 
2.43.0


From 42ea5ad83e9849bbb97dd1b782ecaaf0e67385b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 070/105] fix: look up yang22 CI lines in the CI table

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 1ab7ffc..70c3617 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -232,7 +232,7 @@ def _yang22_ci_fit(redshift,line):
 
     if line not in ['CI1-0','CI2-1']:
         raise ValueError('CI line not recognized')
-    pars = _yang22_ci_params[_yang22_co_params['name']==line][0]
+    pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
     redshift = np.array(redshift)
-- 
2.43.0


From eb696e5aac1912cc0f3df14ac9937cd26383efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 071/105] fix: refuse lines the uzgil14 and spinoglio12 models
 do not have

---
 simim/galprops/line_fir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/galprops/line_fir.py b/simim/galprops/line_fir.py
index 8aecd04..e02ee4d 100644
--- a/simim/galprops/line_fir.py
+++ b/simim/galprops/line_fir.py
@@ -231,6 +231,8 @@ def uzgil14(sfr,
         sigma_A = 0.07
         B = 3.72
         sigma_B = 0.23
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
@@ -335,6 +337,8 @@ def spinoglio12(sfr,
         sigma_A = 0.07
         B = 4.00
         sigma_B = 0.25
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
-- 
2.43.0


From 969eb9922cf432ef833d1cad1d3d73bb735ac442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 072/105] fix: accept the line and galaxy set names the
 documentation lists

---
 simim/galprops/line_fir.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/line_fir.py b/simim/galprops/line_fir.py
index e02ee4d..7ebdcc6 100644
--- a/simim/galprops/line_fir.py
+++ b/simim/galprops/line_fir.py
@@ -40,6 +40,8 @@ def delooze14(sfr,
 
     """
 
+    if set == 'comp/agn':
+        set = 'comp/AGN'
     if line not in ['[CII]','[OI]','[OIII]']:
         raise ValueError("line not recognized")
     if set is not None:
@@ -211,12 +213,12 @@ def uzgil14(sfr,
         sigma_A = 0.05
         B = 3.15
         sigma_B = 0.16
-    elif line=='[SIII]33um':
+    elif line in ['[SIII]33um','[SiIII]33um']:
         A = 0.99
         sigma_A = 0.05
         B = 3.21
         sigma_B = 0.14
-    elif line=='[SIII]19um':
+    elif line in ['[SIII]19um','[SiIII]19um']:
         A = 0.97
         sigma_A = 0.06
         B = 3.47
@@ -317,12 +319,12 @@ def spinoglio12(sfr,
         sigma_A = 0.05
         B = 3.42
         sigma_B = 0.17
-    elif line=='[SIII]33um':
+    elif line in ['[SIII]33um','[SiIII]33um']:
         A = 0.99
         sigma_A = 0.05
         B = 3.46
         sigma_B = 0.16
-    elif line=='[SIII]19um':
+    elif line in ['[SIII]19um','[SiIII]19um']:
         A = 0.97
         sigma_A = 0.06
         B = 3.72
-- 
2.43.0


From 1da6d0f5d63f98a80a1d6e9114cf8aaa50ecc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 073/105] fix: use the luminosity function parameters a g13irlf
 model was given

---
 simim/galprops/sfr_ir.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7c9e6e5..5fa6e4d 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -59,7 +59,6 @@ class g13irlf_base():
         self.path = paths.props[self.name]
 
         self.init_lir_function = False
-        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
 
         # Save pars
         self.lf_alpha0 = lf_alpha0
@@ -69,6 +68,8 @@ class g13irlf_base():
 
         self.lir_to_sfr = lir_to_sfr
 
+        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
+
     def _load_lir_function(self, comp, remake, haloprop, halomassmin, lirmin):
         """Load or compute halo mass-ir luminosity relation"""
 
@@ -140,12 +141,15 @@ class g13irlf_base():
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
         np.save(os.path.join(self.path,'lir.npy'), irgrid.T)
 
-    def get_irlf_pars(self, z, alpha0=1.2, sigma0=0.5, lstar0=10**9.95, phistar0=10**-2.25):
+    def get_irlf_pars(self, z, alpha0=None, sigma0=None, lstar0=None, phistar0=None):
         """Use the redshift scaling from Gruppioni et al. 2013 to get IRLF parameters"""
         if alpha0 is None:
             alpha0 = self.lf_alpha0
+        if sigma0 is None:
             sigma0 = self.lf_sigma0
+        if lstar0 is None:
             lstar0 = self.lf_lstar0
+        if phistar0 is None:
             phistar0 = self.lf_phistar0
 
 
-- 
2.43.0


From 5b3b3aca462b030727a6032327eac8e306d31140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 074/105] fix: evaluate yang22 CO and CI fits for scalar
 redshifts

---
 simim/galprops/line_fir_yang.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 70c3617..38602f6 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -148,7 +148,7 @@ def _yang22_co_fit(redshift,line):
     pars = _yang22_co_params[_yang22_co_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a'] + pars['m1b']*redshift)[redshift<4.0]
@@ -235,7 +235,7 @@ def _yang22_ci_fit(redshift,line):
     pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a']*np.exp(-redshift/pars['m1b']) + pars['m1c'])[redshift<4.0]
-- 
2.43.0


From bd4f86d7bcf40b2deab24e9caa2810279a2e0bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 075/105] fix: am_dfdf extrapolates property 1 with the values
 given for property 1

---
 simim/galprops/galprops_am.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 534f644..98954f3 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -246,13 +246,13 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
         if np.asarray(cum1).ndim > 0:
             ppf = np.zeros(len(cum1))
             ppf[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))] = prop1_rv.ppf(cstar[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))])
-            ppf[cum1<missing_pmass_low_p1] = fillers[2]
-            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[3]
+            ppf[cum1<missing_pmass_low_p1] = fillers[0]
+            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[1]
         else:
             if cum1<missing_pmass_low_p1:
-                ppf = fillers[2]
+                ppf = fillers[0]
             elif cum1>1-missing_pmass_high_p1:
-                ppf = fillers[3]
+                ppf = fillers[1]
             else:
                 ppf = prop1_rv.ppf(cstar)
     
-- 
2.43.0


From 852f68c22217195bae5892e9e577c61af7b28308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 076/105] fix: find the snapshot for the highest redshift a
 simulation covers

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c5b2b1e..b67601c 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -362,7 +362,7 @@ class SimHandler():
 
         if z > np.amax(self.z_bins) or z < 0:
             raise ValueError("z out of range")
-        bin = np.digitize(z,self.z_bins)-1
+        bin = min(np.digitize(z,self.z_bins)-1, len(self.z_bin_snaps)-1)
         bin_id = self.z_bin_snaps[bin]
 
         return bin_id
-- 
2.43.0


From 09432448a1a44de1f8f6ad4761cb632bb8e72354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 077/105] fix: loading or unloading a saved property brings
 back its units and h dependence

---
 simim/_handlers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 3fa35ac..d0b56d6 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -162,6 +162,8 @@ class Handler():
                 property_value = file[self.groupname][property_name][:]
                 if len(property_value) == 0:
                     property_value = property_value.flatten()
+                self.properties_units[property_name] = file[self.groupname][property_name].attrs['units']
+                self.properties_h_dependence[property_name] = file[self.groupname][property_name].attrs['h dependence']
 
             self.properties_loaded[property_name] = property_value
 
@@ -190,6 +192,11 @@ class Handler():
                 self.properties_generated = [i for i in self.properties_generated if i != property_name]
                 self.properties_units.pop(property_name, None)
                 self.properties_h_dependence.pop(property_name, None)
+            # The saved property may have been overwritten in memory
+            else:
+                with h5py.File(self.path,'r') as file:
+                    self.properties_units[property_name] = file[self.groupname][property_name].attrs['units']
+                    self.properties_h_dependence[property_name] = file[self.groupname][property_name].attrs['h dependence']
 
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
         """Load a property from file and return
-- 
2.43.0


From 2d26df4b9a1728fec58394468cc0d34fe3647dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 078/105] fix: write_property does not replace a property
 another handler saved unless asked to

---
 simim/_handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index d0b56d6..fa175de 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -389,6 +389,8 @@ class Handler():
             with h5py.File(self.path,'a') as file:
                 if not property_name in file[self.groupname].keys():
                     file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
+                elif not overwrite:
+                    raise ValueError("Property {} already exists".format(property_name))
                 else:
                     file[self.groupname][property_name][:] = property_value
 
-- 
2.43.0


From 30397bef48e4ec98c3c403204d267b15483aad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 079/105] fix: SimHandler.make_property checks that it may
 overwrite a property before replacing it in memory

---
 simim/siminterface/simhandler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index b67601c..e350d19 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -553,13 +553,6 @@ class SimHandler():
             print("\033[1m"+"Assigning props for Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
             handler = self.get_snap(snap)
 
-            handler.make_property(property=property,
-                                  rename=rename,
-                                  kw_remap=kw_remap,
-                                  other_kws=other_kws,
-                                  overwrite=overwrite,
-                                  use_all_inds=use_all_inds)
-
             if write:
                 if isinstance(rename,str):
                     rename = [rename]
@@ -581,6 +574,14 @@ class SimHandler():
                                 else:
                                     warnings.warn("Property {} already exists, overwriting".format(name))
 
+            handler.make_property(property=property,
+                                  rename=rename,
+                                  kw_remap=kw_remap,
+                                  other_kws=other_kws,
+                                  overwrite=overwrite,
+                                  use_all_inds=use_all_inds)
+
+            if write:
                 handler.write_property(*names,overwrite=overwrite,dtype=writedtype)
                 handler.unload_property(*names)
         print("")
-- 
2.43.0


From 47f0cd469e28f7591466b10ef0f96343c0a1d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 080/105] fix: box_edge is given to properties and statistics
 in the units they ask for

---
 simim/_handlers.py               | 7 ++++++-
 simim/galprops/galprops.py       | 2 +-
 simim/siminterface/simhandler.py | 5 +++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index fa175de..f6cf42c 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -252,6 +252,11 @@ class Handler():
                 else:
                     return value # multiplying non-float dtypes by self.h**0 still converts to float, don't want that...
 
+    def _return_extra_prop(self, name, in_h_units):
+        """Return one of the extra values (cosmology, etc.) in the requested units"""
+
+        return self.extra_props[name]
+
     def make_property(self, property, rename=None, kw_remap={}, other_kws={}, overwrite=False, use_all_inds=False, write_to_disk=False, overwrite_to_disk=False, dtype_to_disk=None, unload_to_disk=False):
         """Use a galprops.prop instance to evaluate a new property
 
@@ -551,7 +556,7 @@ class Handler():
             if self.has_property(kw_use):
                 arguments[kwarg] = self.return_property(kw_use,use_all_inds,in_h_units=give_args_in_h_units)
             else:
-                arguments[kwarg] = self.extra_props[kw_use]
+                arguments[kwarg] = self._return_extra_prop(kw_use,in_h_units=give_args_in_h_units)
 
         # Evaluate function
         vals = stat_function(**arguments)
diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 22bd2d4..71d96f6 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -114,7 +114,7 @@ class MultiProp():
             if target.has_property(kw_use):
                 arguments[kwarg] = target.return_property(kw_use,use_all_inds,in_h_units=self.give_args_in_h_units)
             else:
-                arguments[kwarg] = target.extra_props[kw_use]
+                arguments[kwarg] = target._return_extra_prop(kw_use,in_h_units=self.give_args_in_h_units)
 
         # Evaluate function
         vals = self.prop_function(**arguments,**kw_arguments)
diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index e350d19..4e56bb0 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -76,6 +76,11 @@ class SnapHandler(Handler):
             self.box_edge = self.box_edge_no_h
         self.extra_props['box_edge'] = self.box_edge
 
+    def _return_extra_prop(self, name, in_h_units):
+        if name == 'box_edge':
+            return self.box_edge_h if in_h_units else self.box_edge_no_h
+        return super()._return_extra_prop(name, in_h_units)
+
 
     def grid(self,*property_names,
              in_h_units=None,use_all_inds=False,
-- 
2.43.0


From 70d2d248110786f806631c479248015d9d216912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 081/105] fix: close empty chunk files of Illustris group
 catalogs

---
 simim/siminterface/_illustris_datahandling.py | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/simim/siminterface/_illustris_datahandling.py b/simim/siminterface/_illustris_datahandling.py
index e8e1fcc..67daa1d 100644
--- a/simim/siminterface/_illustris_datahandling.py
+++ b/simim/siminterface/_illustris_datahandling.py
@@ -65,27 +65,26 @@ def _loadObjects(basePath, snapNum, gName, nName, fields):
     wOffset = 0
 
     for i in range(header['NumFiles']):
-        f = h5py.File(_gcPath(basePath, snapNum, i), 'r')
+        with h5py.File(_gcPath(basePath, snapNum, i), 'r') as f:
 
-        if not f['Header'].attrs['N'+nName+'_ThisFile']:
-            continue  # empty file chunk
+            if not f['Header'].attrs['N'+nName+'_ThisFile']:
+                continue  # empty file chunk
 
-        # loop over each requested field
-        for field in fields:
-            if field not in f[gName].keys():
-                raise Exception("Group catalog does not have requested field [" + field + "]!")
+            # loop over each requested field
+            for field in fields:
+                if field not in f[gName].keys():
+                    raise Exception("Group catalog does not have requested field [" + field + "]!")
 
-            # shape and type
-            shape = f[gName][field].shape
+                # shape and type
+                shape = f[gName][field].shape
 
-            # read data local to the current file
-            if len(shape) == 1:
-                result[field][wOffset:wOffset+shape[0]] = f[gName][field][0:shape[0]]
-            else:
-                result[field][wOffset:wOffset+shape[0], :] = f[gName][field][0:shape[0], :]
+                # read data local to the current file
+                if len(shape) == 1:
+                    result[field][wOffset:wOffset+shape[0]] = f[gName][field][0:shape[0]]
+                else:
+                    result[field][wOffset:wOffset+shape[0], :] = f[gName][field][0:shape[0], :]
 
-        wOffset += shape[0]
-        f.close()
+            wOffset += shape[0]
 
     # only a single field? then return the array instead of a single item dict
     if len(fields) == 1:
-- 
2.43.0


From e9f12b7121b477e2b91303aa1d1dbf9b89ba17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 082/105] fix: format skips snapshots that have no metadata
 instead of storing them unlisted

---
 simim/siminterface/_rawsiminterface.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index c0ab244..1ab8695 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -461,6 +461,12 @@ class SimCatalogs():
                 file.attrs['snapshots'] = meta_snaps
                 file.attrs['number_snaps'] = len(meta_snaps)
 
+        # Snapshots without metadata can't be listed (or used) later
+        no_meta = np.setdiff1d(snaps_to_do, self.snap_meta['index'])
+        if len(no_meta) > 0:
+            warnings.warn("No metadata available for snapshots {} - run .download_meta. Skipping them.".format(no_meta))
+            snaps_to_do = np.setdiff1d(snaps_to_do, no_meta)
+
         if len(snaps_to_do) == 0:
             warnings.warn("No new data has been added to file")
             return
-- 
2.43.0


From 5f063e95a2f685b1855e5962fd317da63ff6c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 083/105] fix: a snapshot appears in data.hdf5 only once it is
 completely written

---
 simim/siminterface/_rawsiminterface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 1ab8695..cf50a8b 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -552,9 +552,8 @@ class SimCatalogs():
             # Now put it in the file
             with h5py.File(os.path.join(self.path,'data.hdf5'), "a") as file:
 
-                if "Snapshot {}".format(snap) in file.keys():
-                    del file["Snapshot {}".format(snap)]
-                snap_grp = file.create_group("Snapshot {}".format(snap))
+                # The group is given its name once it is complete
+                snap_grp = file.create_group(None)
 
                 snap_grp.create_dataset('mass_cuts',data=mass_cuts)
 
@@ -580,6 +579,10 @@ class SimCatalogs():
 
                 snap_meta = self.snap_meta[self.snap_meta['index'] == snap]
                 snap_grp.attrs['metadata'] = snap_meta
+
+                if "Snapshot {}".format(snap) in file.keys():
+                    del file["Snapshot {}".format(snap)]
+                file["Snapshot {}".format(snap)] = snap_grp
             
             # Delete raw data if requested
             if realtime_clean_raw:
-- 
2.43.0


From 7f3a2cb530086289cde7593d9133487e69762323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 084/105] fix: list snapshots in data.hdf5 when they have been
 stored, not before

---
 simim/siminterface/_rawsiminterface.py | 27 ++++++++++----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index cf50a8b..f8af1f3 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -422,9 +422,9 @@ class SimCatalogs():
                 for key in self.metadata.keys():
                     file.attrs[key] = self.metadata[key]
 
-                meta_snaps = self.snap_meta[np.isin(self.snap_meta['index'], snaps_to_do)]
-                file.attrs['snapshots'] = meta_snaps
-                file.attrs['number_snaps'] = len(meta_snaps)
+                # Snapshots are listed as they are stored
+                file.attrs['snapshots'] = self.snap_meta[:0]
+                file.attrs['number_snaps'] = 0
 
         # Cases 2 and 3 - need to first get the fields to write and figure out what snaps are called for and get current metadata
         # Then sort through the requested snaps and decide whether to overwrite them or not when duplicated
@@ -441,26 +441,12 @@ class SimCatalogs():
                     if other_fields_start[f][0][0] in data_fields:
                         self.other_fields[f] = other_fields_start[f]
                         self.all_fields[f] = other_fields_start[f]
-                
-                meta_snaps = file.attrs['snapshots']
-                meta_numsnaps = file.attrs['number_snaps']
 
             if overwrite:
                 snaps_to_do = np.concatenate((add_snaps,replace_snaps))
             else:
                 snaps_to_do = add_snaps
 
-            # Keeps old metadata - maybe I should be updating all metadata though since some things are 
-            # relative to other snaps
-            meta_snaps = meta_snaps[~np.isin(meta_snaps['index'], snaps_to_do)]
-            new_snaps = self.snap_meta[np.isin(self.snap_meta['index'], snaps_to_do)]
-            meta_snaps = np.concatenate((meta_snaps, new_snaps))
-            meta_snaps = np.sort(meta_snaps,order='index')
-
-            with h5py.File(os.path.join(self.path,'data.hdf5'), "a") as file:
-                file.attrs['snapshots'] = meta_snaps
-                file.attrs['number_snaps'] = len(meta_snaps)
-
         # Snapshots without metadata can't be listed (or used) later
         no_meta = np.setdiff1d(snaps_to_do, self.snap_meta['index'])
         if len(no_meta) > 0:
@@ -583,6 +569,13 @@ class SimCatalogs():
                 if "Snapshot {}".format(snap) in file.keys():
                     del file["Snapshot {}".format(snap)]
                 file["Snapshot {}".format(snap)] = snap_grp
+
+                # Keeps old metadata - maybe I should be updating all metadata though since some things are 
+                # relative to other snaps
+                meta_snaps = file.attrs['snapshots']
+                meta_snaps = np.concatenate((meta_snaps[meta_snaps['index'] != snap], snap_meta))
+                file.attrs['snapshots'] = np.sort(meta_snaps,order='index')
+                file.attrs['number_snaps'] = len(meta_snaps)
             
             # Delete raw data if requested
             if realtime_clean_raw:
-- 
2.43.0


From 7fc48e42b14c0bced568771e40b6bd74c5870315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 085/105] fix: a minimum mass below the lowest tabulated cut
 keeps all halos

---
 simim/siminterface/simhandler.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 4e56bb0..a13938c 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -421,10 +421,8 @@ class SimHandler():
                 mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
-            if len(vals) < 1:
-                index = 0
-            elif len(vals) == len(mass_cuts):
-                index = mass_cuts['index'][-1]
+            if len(vals) == len(mass_cuts):
+                index = len(file["Snapshot {}".format(snap)]['mass'])
             else:
                 index = mass_cuts['index'][len(vals)]
 
-- 
2.43.0


From cca33423a819a6e6e689e3a27ccfc6ecb53a2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 086/105] fix: properties can be added to a light cone without
 halos

---
 simim/lightcone/lcmaker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 4d3bd91..23e8f81 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -166,7 +166,9 @@ class GenericLCMaker():
 
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
+                if shape[0] == 0:
+                    chunks = None
+                elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
                     file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
@@ -273,7 +275,9 @@ class GenericLCMaker():
 
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
+                if shape[0] == 0:
+                    chunks = None
+                elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
-- 
2.43.0


From 1da82b915ec06ef6e16c987ce75e233d4709a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 087/105] fix: an interrupted download_meta(redownload=True) is
 not taken for complete

---
 simim/siminterface/illustris.py       | 4 ++++
 simim/siminterface/uchuu.py           | 4 ++++
 simim/siminterface/universemachine.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index ddb51d9..7de91d4 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -490,6 +490,10 @@ class IllustrisCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
+        # Old metadata doesn't vouch for the new snapshot metadata
+        if os.path.exists(self.meta_path):
+            os.remove(self.meta_path)
+
         np.save(self.snap_meta_path,self.snap_meta)
         np.save(self.meta_path,self.metadata)
 
diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index d30f5e3..f05e671 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -326,6 +326,10 @@ class UchuuCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
+        # Old metadata doesn't vouch for the new snapshot metadata
+        if os.path.exists(self.meta_path):
+            os.remove(self.meta_path)
+
         np.save(self.snap_meta_path,self.snap_meta)
         np.save(self.meta_path,self.metadata)
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 50d448a..2f39056 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -378,6 +378,10 @@ class UniversemachineCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
+        # Old metadata doesn't vouch for the new snapshot metadata
+        if os.path.exists(self.meta_path):
+            os.remove(self.meta_path)
+
         np.save(self.snap_meta_path,self.snap_meta)
         np.save(self.meta_path,self.metadata)
 
-- 
2.43.0


From 9f7ad723d35f1a92a121f580f04834aa2af121a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 088/105] fix: interrupted remaking of a model table does not
 leave the old table with new axes

---
 simim/galprops/sfr_bethermin17.py | 4 ++++
 simim/galprops/sfr_ir.py          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index eba84a3..3a87a8a 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -220,6 +220,10 @@ class bethermin17_base():
                 smgrid[i] = mstarofhalo(halopropgrid)
         print()
 
+        # The old table doesn't go with the new axes
+        if os.path.exists(os.path.join(self.path,'stellarmass.npy')):
+            os.remove(os.path.join(self.path,'stellarmass.npy'))
+
         np.save(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
         np.save(os.path.join(self.path,'stellarmass.npy'), smgrid.T)
diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 5fa6e4d..6468846 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -137,6 +137,10 @@ class g13irlf_base():
                 lirofhalo, _ = am_dfcat(snap_haloprop,df_freeze,missing_pmass_low_p1=missing_pmass_low_p1,missing_pmass_low_p2=missing_pmass_low_p2)
                 irgrid[i] = lirofhalo(halopropgrid)
 
+        # The old table doesn't go with the new axes
+        if os.path.exists(os.path.join(self.path,'lir.npy')):
+            os.remove(os.path.join(self.path,'lir.npy'))
+
         np.save(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
         np.save(os.path.join(self.path,'lir.npy'), irgrid.T)
-- 
2.43.0


From 84c43fbb31f427005ef80418e3448f5a194b60af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:33 +0000
Subject: [PATCH 089/105] fix: snapshot metadata sorted once when the server
 lists snapshots out of order

---
 simim/siminterface/illustris.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 7de91d4..0cf8200 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -457,8 +457,6 @@ class IllustrisCatalogs(SimCatalogs):
         for i in snap_meta_raw:
             snap_meta_classes.append(Snapshot(i['number'],i['redshift'],self.metadata))
             numbers.append(i['number'])
-        snap_meta_classes = [snap_meta_classes[i] for i in np.argsort(numbers)]
-        
         order = np.argsort(numbers)
         snap_meta_classes = [snap_meta_classes[i] for i in order if numbers[i] in self.snaps]
 
-- 
2.43.0


From 46a9da577a5f746befd63583a435d63e56619ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:33 +0000
Subject: [PATCH 090/105] fix: raw files ordered like the snapshot metadata,
 whatever order the server lists them in

---
 simim/siminterface/universemachine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 2f39056..a0b5394 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -83,6 +83,11 @@ class UniversemachineCatalogs(SimCatalogs):
                 self.web_files = np.array(web_files)
             except:
                 raise ValueError("Unable to access file names on {}".format(self.webpage))
+
+            # Order files with highest redshift first
+            a = np.array([float(t.split('_')[-1][:-4]) for t in self.web_files])
+            self.web_files = self.web_files[np.argsort(a)]
+
             np.save(self.web_path,self.web_files)
 
         # Identify keys that will require unit conversions
-- 
2.43.0


From 078edca2ceaca583f22f38b8f2f6dd70dd3f0277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 091/105] fix: LCHandler.volume compared a squared diagonal
 with the opening angle, accepting boxes that reach outside a circular light
 cone

---
 simim/lightcone/lchandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index fa7fca6..03cf6c4 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -172,7 +172,7 @@ class LCHandler(Handler):
 
         if shape == 'box' and self.metadata['shape'] == 'circle':
             radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
-            if radius2 > self.metadata['open angle']:
+            if radius2 > self.metadata['open angle']**2:
                 raise ValueError("specified box does not fit in circular lightcone")
 
         # Figure out the volume
-- 
2.43.0


From 0b162f359bec7f0e3ac3a1ccf0a4986d07b6e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 092/105] fix: LCHandler.volume accepted circles wider than the
 short side of a box light cone

---
 simim/lightcone/lchandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 03cf6c4..6f58955 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -174,6 +174,9 @@ class LCHandler(Handler):
             radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
             if radius2 > self.metadata['open angle']**2:
                 raise ValueError("specified box does not fit in circular lightcone")
+        if shape == 'circle' and self.metadata['shape'] == 'box':
+            if open_angle > self.metadata['open angle']*self.metadata['aspect ratio']:
+                raise ValueError("specified circle does not fit in box lightcone")
 
         # Figure out the volume
         if shape == 'box':
-- 
2.43.0


From 521085f309787cca18b4dd81bc81177b1bb100a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 093/105] fix: Grid.visualize draws cells at the right place
 for axes in descending order

---
 simim/map/gridder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 510ff2e..96d7066 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1868,7 +1868,12 @@ class Grid():
                     slice_idx += 1
             image = self.grid[tuple(slices)][:,:,property]
 
-        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image.real.T,**plotkws)
+        # pcolor puts rows along the vertical axis
+        image = image.real
+        if ax[0] < ax[1]:
+            image = image.T
+
+        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image,**plotkws)
         fig.colorbar(cb)
         plt.show()
 
-- 
2.43.0


From d0291d34b5d45f024a9dbbb00227403f310c135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 094/105] fix: Grid.visualize uses Fourier coordinates for axes
 in Fourier space

---
 simim/map/gridder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 96d7066..6cc27b4 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1873,7 +1873,9 @@ class Grid():
         if ax[0] < ax[1]:
             image = image.T
 
-        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image,**plotkws)
+        edges = [self.fourier_axes[i] if self.fourier_space[i] else self.axes[i] for i in ax]
+
+        cb=plot.pcolor(edges[0],edges[1],image,**plotkws)
         fig.colorbar(cb)
         plt.show()
 
-- 
2.43.0


From 18bab101ea0d22a54d9af197d407f138ce25d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 095/105] fix: Grid.animate slices the right axis after
 flattening the others

---
 simim/map/gridder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6cc27b4..e032f3b 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1914,6 +1914,8 @@ class Grid():
         else:
             ax0 = self.axes_centers[slide_dim] - self.pixel_size[slide_dim]/2
         slide_ax = np.copy(ax0)
+        # Position of the slide axis once the flattened axes are gone
+        slide_flat = slide_dim - np.count_nonzero(flatten_dims < slide_dim)
         ax0 = _axis_edges(np.copy(ax0),self.pixel_size[slide_dim])
 
         if self.fourier_space[face_dims[0]]:
@@ -1962,7 +1964,7 @@ class Grid():
         plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
-        map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_dim)
+        map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_flat)
         if face_dims[0] < face_dims[1]:
             map_face = map_face.T
         if logscale:
@@ -1978,7 +1980,7 @@ class Grid():
             plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i]))
             box.set_data([ax0[i],ax0[i],ax0[i+1],ax0[i+1],ax0[i]],
                          [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
-            map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i,axis=slide_dim)
+            map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i,axis=slide_flat)
             if face_dims[0] < face_dims[1]:
                 map_face = map_face.T
             if logscale:
-- 
2.43.0


From fe63d8810c9f6eddede83b5da3e8f69e014e6034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 096/105] fix: Grid.animate draws the slide axis at its own
 place

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index e032f3b..1964d7e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1912,7 +1912,7 @@ class Grid():
         if self.fourier_space[slide_dim]:
             ax0 = self.fourier_axes_centers[slide_dim]
         else:
-            ax0 = self.axes_centers[slide_dim] - self.pixel_size[slide_dim]/2
+            ax0 = self.axes_centers[slide_dim]
         slide_ax = np.copy(ax0)
         # Position of the slide axis once the flattened axes are gone
         slide_flat = slide_dim - np.count_nonzero(flatten_dims < slide_dim)
-- 
2.43.0


From dd0c81c6e20baccfdac4d43a293fb9c0994b08bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 097/105] fix: Grid.animate titles the first frame with the
 slice it shows

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 1964d7e..94299f5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1961,7 +1961,7 @@ class Grid():
                      [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
 
         plot_face = plt.subplot(122)
-        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[0]))
+        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
         map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_flat)
-- 
2.43.0


From 9bdaa3ffe88a26ec76afbd1804c8b6a7a5a3f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 098/105] fix: plot_detector_response draws the beam along the
 right axes

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index fddee39..3088b87 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1068,7 +1068,7 @@ class Instrument:
 
             x = np.linspace(xmin,xmax,100)
             y = np.linspace(ymin,ymax,100)
-            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0],vmin=0)
+            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0].T,vmin=0)
 
         plt.show()
 
-- 
2.43.0


From 6a7fe33cffc1d4d9410f21fee54d6a3225221883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:16 +0000
Subject: [PATCH 099/105] fix: probability density of the Schechter functions
 is normalised

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 98954f3..fc68b29 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -417,7 +417,7 @@ class schechter_gen(rv_continuous):
         p = self.lum_function(x, x0, alpha, phi0, xmin)
         p[x<xmin] = 0
 
-        return p
+        return p/norm
     
     def _cdf(self, x, x0, alpha, phi0, xmin):
         norm = self.lum_function_int(xmin, x0, alpha, phi0, xmin)
@@ -559,7 +559,7 @@ class double_schechter_gen(rv_continuous):
         p = self.lum_function(x, x0, alpha1, phi1, alpha2, phi2, xmin)
         p[x<xmin] = 0
 
-        return p
+        return p/norm
     
     def _cdf(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
         norm = self.lum_function_int(xmin, x0, alpha1, phi1, alpha2, phi2, xmin)
-- 
2.43.0


From baab606770142b4dd686be8a50530d2def36a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:37 +0000
Subject: [PATCH 100/105] fix: integral of a Schechter function from below its
 lower limit, for single values and arrays of parameters

---
 simim/galprops/galprops_am.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index fc68b29..1e27c02 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -327,14 +327,8 @@ class schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha, phi0, xmin):
-        int = phi0 * self._uppergammamod(alpha+1, x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi0 * self._uppergammamod(alpha+1, xmin/x0)
-        else:
-            if x<xmin:
-                int = 1
-
-        return int
+        x = np.maximum(x,xmin) # Nothing below xmin
+        return phi0 * self._uppergammamod(alpha+1, x/x0)
 
     def _uppergammamod(self, a, x):
         """Double schechter function parameterized as
@@ -469,14 +463,8 @@ class double_schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
-        int = phi1 * self._uppergammamod(alpha1+1, x/x0) + phi2 * self._uppergammamod(alpha2+1,x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
-        else:
-            if x<xmin:
-                int = 1
-
-        return int
+        x = np.maximum(x,xmin) # Nothing below xmin
+        return phi1 * self._uppergammamod(alpha1+1, x/x0) + phi2 * self._uppergammamod(alpha2+1, x/x0)
 
     def _uppergammamod(self, a, x):
         """Double schechter function parameterized as
-- 
2.43.0


From df82b4f915af6fbb5a5d9adeee21a9f7e628b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:37 +0000
Subject: [PATCH 101/105] fix: Schechter functions with arrays of slopes

---
 simim/galprops/galprops_am.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 1e27c02..7c3d618 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -383,6 +383,7 @@ class schechter_gen(rv_continuous):
             gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
 
         elif np.asarray(x).size == 1:
+            x = np.ones(a.shape) * x
             gp = np.zeros(a.shape)
             c1 = np.asarray(a) > 0
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
@@ -402,7 +403,7 @@ class schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                gp[n>i] = (gp[n>i] - x[n>i]**(amod[n>i]-(i+1))*np.exp(-x[n>i])) / (amod[n>i] - (i+1))
 
         return gp
     
@@ -519,6 +520,7 @@ class double_schechter_gen(rv_continuous):
             gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
 
         elif np.asarray(x).size == 1:
+            x = np.ones(a.shape) * x
             gp = np.zeros(a.shape)
             c1 = np.asarray(a) > 0
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
@@ -538,7 +540,7 @@ class double_schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                gp[n>i] = (gp[n>i] - x[n>i]**(amod[n>i]-(i+1))*np.exp(-x[n>i])) / (amod[n>i] - (i+1))
 
         return gp
     
-- 
2.43.0


From 5e67aa324a26545d4921f7dad6e4ecf7ffa953d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:02 +0000
Subject: [PATCH 102/105] fix: convert the results of property functions in a
 new list instead of the one the function returned

---
 simim/galprops/galprops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 71d96f6..644da75 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -127,6 +127,7 @@ class MultiProp():
         # Now, if the function doesn't return in little-h units we need to
         # convert into them
         if not self.function_return_in_h_units:
+            vals = list(vals)
             for i in range(len(vals)):
                 if self.h_dependence[self.names[i]] != 0:
                     vals[i] = vals[i] / target.h**self.h_dependence[self.names[i]]
-- 
2.43.0


From 2d00b8dc8a288c0285f71a21fa1c9767556a8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:20 +0000
Subject: [PATCH 103/105] fix: logarithmic shells of spherical_average start
 exactly at the smallest radius

---
 simim/map/gridder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 94299f5..af5468e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1731,6 +1731,7 @@ class Grid():
                 if bin_min <=0:
                     bin_min = np.min(rad[rad>0])
                 shells = np.logspace(np.log10(bin_min),np.log10(bin_max),bin_n+1)
+                shells[0] = bin_min # logspace can round above bin_min and lose the innermost cells
             else:
                 raise ValueError("bin mode must be in ['log','linear'].")
         
-- 
2.43.0


From 4c1a994d2fcd83fbc7fad5865695836596123009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:54 +0000
Subject: [PATCH 104/105] fix: spherical_average keeps imaginary parts when
 axes that are not averaged are in Fourier space

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index af5468e..a7e0a5e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1759,7 +1759,7 @@ class Grid():
         coords_for_cells = np.array(coords_for_cells).T[good_inds] # This is now an n_cells x n_dimensions (of binned data) array
 
         # Bin the data
-        if axfourier and not self.is_power_spectrum:
+        if np.any(self.fourier_space) and not self.is_power_spectrum:
             dtype_data = complex
         else:
             dtype_data = float
-- 
2.43.0


From 2fcdea15a7a41a580e147a0c417624095f2b7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:54 +0000
Subject: [PATCH 105/105] fix: down_sample keeps complex data when other axes
 are in Fourier space

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a7e0a5e..4ac6de9 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1217,7 +1217,7 @@ class Grid():
 
             # Downsample
             new_ax_centers = np.zeros(shape[axi])
-            new_grid = np.zeros(shape)
+            new_grid = np.zeros(shape,dtype=complex if self.grid_active and np.iscomplexobj(self.grid) else float)
             for i in range(shape[axi]):
                 slice_ax = slice(i*fac,(i+1)*fac)
                 slices = tuple(slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1))
-- 
2.43.0

