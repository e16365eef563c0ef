From 69cd31c8b9dfa8c621244b735d0d8b1ec6fe378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 01/52] fix: accept raw format version 0.91 when processing a
 single file (gem_cat failed on 0.91 files)

---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index f1aad87..1e91b38 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -842,7 +842,7 @@ def _read_single(filename, offset=0, require_gps = True, version = '0.9'):
 
 def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     ## figure out what settings to used according to the raw file format version
-    if version in ['1.10', '0.9', '0.85C']:
+    if version in ['1.10', '0.91', '0.9', '0.85C']:
         rollover = 2**13
         M_cols = ['millis', 'batt', 'temp', 'A2', 'A3',
                   'maxWriteTime', 'minFifoFree', 'maxFifoUsed',
@@ -904,7 +904,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
 
 
     # process data (version-dependent)
-    if version in ['1.10', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
+    if version in ['1.10', '0.91', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
         D['ADC'] = D['ADC'].astype(float).cumsum()
 
     ## gps stuff
-- 
2.43.0


From 81e4fcea49cd5739a0d2f2eefe821fb90e899fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 02/52] fix: raise Exception, not BaseException, for an invalid
 configuration, so gemconvert logs it

---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 1e91b38..1b2f8b0 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1393,7 +1393,7 @@ def get_bitweight_info(SN, config, units = 'Pa'):
         multiplier = 2
     else:
         #pdb.set_trace()
-        raise BaseException('Invalid Configuration')
+        raise Exception('Invalid Configuration')
     specs = get_gem_specs(SN)
     specs['bitweight_Pa'] *= multiplier
     specs['bitweight_V'] *= multiplier
@@ -1404,7 +1404,7 @@ def get_bitweight_info(SN, config, units = 'Pa'):
     elif units.lower() == 'counts':
         specs['bitweight'] = 1
     else:
-        raise BaseException('Invalid Units')
+        raise Exception('Invalid Units')
     return specs
 
 def _reformat_GPS(G_in):
-- 
2.43.0


From 2745dc66dc37d8773d04cca52e8b160e88af7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 03/52] fix: directory creation in convert tolerates a parallel
 worker creating it first, and failures are reported instead of exiting

---
 gemlog/core.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 1b2f8b0..0a0afaa 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -230,29 +230,26 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if(len(gpsfile) == 0):
         if(not os.path.isdir(gpspath)):
             try:
-                os.makedirs(gpspath) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
-            except:
-                print('Failed to make directory ' + gpspath)
-                sys.exit(2)
+                os.makedirs(gpspath, exist_ok=True) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
+            except OSError as e:
+                raise Exception('Failed to make directory ' + gpspath) from e
         gpsfile = _make_filename(gpspath, SN, 'gps')
 
   
     if(len(metadatafile) == 0):
         if(not os.path.isdir(metadatapath)):
             try:
-                os.makedirs(metadatapath)
-            except:
-                print('Failed to make directory ' + metadatapath)
-                sys.exit(2)
+                os.makedirs(metadatapath, exist_ok=True)
+            except OSError as e:
+                raise Exception('Failed to make directory ' + metadatapath) from e
         metadatafile = _make_filename(metadatapath, SN, 'metadata')
   
     ## if the converted directory does not exist, make it
     if(not os.path.isdir(convertedpath)):
         try:
-            os.makedirs(convertedpath)
-        except:
-            print('Failed to make directory ' + convertedpath)
-            sys.exit(2)
+            os.makedirs(convertedpath, exist_ok=True)
+        except OSError as e:
+            raise Exception('Failed to make directory ' + convertedpath) from e
   
     ## start metadata and gps files
     metadata = L['metadata']   
-- 
2.43.0


From 6c44b9d1e2932aeb2e14475aab4b217047a926a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 04/52] fix: do not swallow KeyboardInterrupt while reading raw
 files

---
 gemlog/core.py       | 32 ++++++++++++++++----------------
 gemlog/gem_cat.py    |  6 +++---
 gemlog/gemconvert.py |  2 +-
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 0a0afaa..6dcbe54 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -135,7 +135,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     try:
         SN = str(SN)
         int(SN) # make sure it's number-like
-    except:
+    except Exception:
         raise Exception('Invalid serial number')
     if len(SN) != 3:
         raise Exception('Invalid serial number; SN type is length-'+ str(len(SN)) +' ' + str(type(SN)) + ', not length-3 str')
@@ -160,7 +160,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         try:
             if _read_SN(file) == SN:
                 fn_new.append(file)
-        except:
+        except Exception:
             corrupt_files_flag = True
             pass # if we can't read the file's SN, it's corrupt and should be skipped
     fn = fn_new
@@ -499,7 +499,7 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
         try:
             version = _read_format_version(fnList[0])
             config = _read_config(fnList[0])
-        except: # if we can't read the config for the first file here, drop it and try the next one
+        except Exception: # if we can't read the config for the first file here, drop it and try the next one
             fnList = fnList[1:] # 
         else:
             break
@@ -579,7 +579,7 @@ def _read_SN(fn):
     try:
         SN_lines = pd.read_csv(fn, delimiter = ',', skiprows = 3, nrows=4, dtype = 'str', names=['linetype', 'SN'], encoding_errors='ignore', comment = '#', on_bad_lines = 'skip')
         SN = SN_lines['SN'][SN_lines['linetype'] == 'S'][0]
-    except:
+    except Exception:
         raise CorruptRawFile(fn + ': missing serial number')
     return SN
 
@@ -610,7 +610,7 @@ def _read_config(fn):
             if line.iloc[0,0] == 'C':
                 config = {key:int(line.loc[0,key]) for key in list(line.keys())[1:]}
                 break
-        except:
+        except Exception:
             pass
     return config
 
@@ -628,7 +628,7 @@ def _find_nonmissing_files(path, SN, nums):
         if ext[i] == 'TXT':
             try:
                 ext[i] = _read_SN(fnList[i])
-            except: # if we're here, it's a corrupt/empty file
+            except Exception: # if we're here, it's a corrupt/empty file
                 pass # do nothing--it won't make it into goodFnList
             ## check the files for SN and num
     goodFnList = []
@@ -668,7 +668,7 @@ def _make_gps_time(line):
         
         line = np.array(line) # warning is possible if 'line' is pd.Series
         return obspy.UTCDateTime(int(line[2]), int(line[3]), int(line[4]), int(line[5]), int(line[6]), int(line[7]))
-    except:
+    except Exception:
         return np.nan
 
 def _read_with_cython(filename, require_gps = True):
@@ -700,7 +700,7 @@ def _read_with_cython(filename, require_gps = True):
     # use cythonized reader file instead of pd.read_csv and slow string ops
     try:
         values, types, millis = parse_gemfile(str(filename).encode('utf-8'))
-    except:
+    except Exception:
         values, types, millis = parse_gemfile(str(filename).encode('utf-8'), n_row = 1560000 * 6*7) # in case we're processing a long file, try again with a buffer big enough for 1 week
     if values.shape[0] == 0:
         raise EmptyRawFile(filename)
@@ -760,14 +760,14 @@ def _read_with_pandas(filename, require_gps = True):
         try:
             df = pd.read_csv(filename, names=range(13), engine='python', skiprows=6,
                              on_bad_lines = 'skip', encoding_errors='ignore')
-        except:
+        except Exception:
             raise CorruptRawFile(filename)
     if df.shape[0] == 0:
         raise EmptyRawFile(filename)
 
     try:
         df['linetype'] = [value[0] for value in df[0]] # exception if any 'value' is not a string
-    except:
+    except Exception:
         raise CorruptRawFile(filename)
     if ('G' not in set(df.loc[:,'linetype'])) and require_gps:
         raise CorruptRawFileNoGPS(filename)
@@ -918,7 +918,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
         G['t'] = G.apply(_make_gps_time, axis=1)
         G = G.loc[~G['t'].isna(),:]
         G = G.reset_index().astype('float')
-    except:
+    except Exception:
         if require_gps:
             raise CorruptRawFileNoGPS()
         else:
@@ -1125,7 +1125,7 @@ def _calculate_drift(L, fn, require_gps):
                or (num_gps_nonoutliers < 10) \
                or MAD_nonoutliers > 0.01:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
-        except:
+        except Exception:
             if require_gps:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
         else: # if regression was successful, no need to try the zero-drift methods
@@ -1248,7 +1248,7 @@ def _assign_times(L):
     G = _reformat_GPS(L['gps'])
     try:
         breaks = _find_breaks(L)
-    except:
+    except Exception:
         raise CorruptRawFile('Problem between ' + fnList[0] + '-' + fnList[-1] + '; stopping before this interval. Break between recording periods? Corrupt files?')
     piecewiseTimeFit = L['header']
     L['metadata']['t'] = _apply_segments(L['metadata']['millis'], piecewiseTimeFit)
@@ -1295,7 +1295,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
         w = (t_in >= (starts[i] - 0.01 - eps)) & (t_in <= (ends[i] + 0.01 - eps))
         try:
             f = scipy.interpolate.CubicSpline(t_in[w], p_in[w])
-        except:
+        except Exception:
             _breakpoint()
             continue
             ##if not _debug: # so pdb doesn't end immediately with this exception
@@ -1428,7 +1428,7 @@ def _find_breaks(L):
                    (L['gps'].lat == 0) | # exclude points within ~1m of the equator
                    (L['gps'].lon == 0)) # exclude points within ~1m of the prime meridian
         L['gps'] = L['gps'].iloc[np.where(~badTags)[0],:]
-    except:
+    except Exception:
         _breakpoint()
     mD = np.array(L['data'][:,0]) # data millis
     dmD = np.diff(mD)
@@ -1471,7 +1471,7 @@ def _find_breaks(L):
             ## This is unlikely and it's not clear now what the right thing to do is. So not implemented.
             try:
                 starts = np.append(starts, mG[wmin][tG[wmin] == tG[wmin].min()][-1]) # [-1] just in case tG values are repeated
-            except:
+            except Exception:
                 _breakpoint()
             wmax = np.argwhere(tG < tG[i+1])
             ## It's possible for a gps break to occur so early that no good fixes occur before the
diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index a6f96d5..6375525 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -36,7 +36,7 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
     if not os.path.isdir(output_dir):
         try:
             os.makedirs(output_dir)
-        except:
+        except Exception:
             raise Exception('Output path ' + output_dir + ' does not exist and cannot be created')
         else:
             print('Created output folder ' + output_dir)
@@ -47,7 +47,7 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
     out_file = [] ## note that out_file being empty acts as a flag saying that no files have been processed yet
     try:
         SN = _read_SN(gem_files[0])
-    except:
+    except Exception:
         raise EmptyRawFile(gem_files[0])
 
     for k in range(len(gem_files)):
@@ -65,7 +65,7 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
         try:
             ## here and elsewhere, delimiter='\t' is used as a dummy to read each line as a whole string (read_csv doesn't accept '\n')
             lines = pd.read_csv(gem_files[k], delimiter = '\t', dtype = 'str', names = ['line'])
-        except:
+        except Exception:
             raise EmptyRawFile(gem_files[k])
         #gps_grep = grepl("^G.*-?\\d+\\.\\d+,-?\\d+\\.\\d+$", lines)
         gps_grep = lines.line.str.contains('^G')
diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 32e9573..2f8e93a 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -123,7 +123,7 @@ def main(argv = None):
         elif opt in ("-p", "--parallel"):
             try:
                 num_processes = int(arg)
-            except:
+            except Exception:
                 'could not interpret number_of_processes ' + arg + ' as integer'
 
     ## set up logging
-- 
2.43.0


From 4b876ef0ebb70e18abdd1c6671f8fa5b9fe0cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 05/52] fix: a raw file rejected for a missing serial number
 leaves no drift segment in the header

---
 gemlog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 6dcbe54..6c40efd 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1058,13 +1058,14 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 raise CorruptRawFile(f'{fn} sample times are discontinuous, skipping this file')
 
             header_info = _calculate_drift(L, fn, require_gps)
+            SN = _read_SN(fn) # raises CorruptRawFile, so do it before this file contributes to the outputs
 
             if (not require_gps) or (L['gps'].shape[0] > 0) :
                 for key in header_info.keys():
                     header.loc[i, key] = header_info[key]
                 
             header.loc[i, 'num_data_pts'] = L['data'].shape[0]
-            header.loc[i, 'SN'] = _read_SN(fn)
+            header.loc[i, 'SN'] = SN
 
             M = pd.concat((M, L['metadata']))
             G = pd.concat((G, L['gps']))
-- 
2.43.0


From 1089c082dc61a97ce3ca6ef3a44750b2542e5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 06/52] fix: raw files rejected as a block, or dropped for an
 unreadable version, are reported in the problems returned by convert

---
 gemlog/core.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 6c40efd..c64b2e3 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -187,6 +187,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
   
     ## read the first set of up to (24*blockdays) files
     L = _new_gem_var()
+    problems = []
     while((L['data'].count() == 0) & (n1 <= max(nums))): ## read sets of files until we get one that isn't empty
         nums_block = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))] # files are 2 hours, so 12 files is 24 hours
         n1 = n1 + (12*blockdays) # increment file number counter
@@ -194,10 +195,12 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             L = read_gem(path = rawpath, nums = nums_block, SN = SN, network = network, station = station, location = location)
         except MissingRawFiles: # if the block has no files, keep searching
             continue
-        except CorruptRawFile: # if the block has no files, keep searching
+        except CorruptRawFile as e: # if the block has no usable files, note it and keep searching
+            problems.append(str(e))
             continue
         except: # if there's any other problem, raise it
             raise
+        problems += L['problems']
     if L['data'].count() == 0:
         raise MissingRawFiles(f'No non-corrupt raw files found in folder "{rawpath}"')
     p = L['data']
@@ -254,7 +257,6 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## start metadata and gps files
     metadata = L['metadata']   
     gps = L['gps']
-    problems = L['problems']
     metadata.to_csv(metadatafile, index=False) ## change to metadata format. need to make ScanMnetadata compatible with both
 
     wgps = (gps['t'] > (t1 - 1)) 
@@ -277,13 +279,15 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
                 continue
-            except CorruptRawFile: # if the block has no files, keep searching
+            except CorruptRawFile as e: # if the block has no usable files, note it and keep searching
+                problems.append(str(e))
                 continue
             except: # especially for KeyboardInterrupt!
                 raise
             finally:
                 n1 = n1 + (12*blockdays) # increment file counter
 
+            problems += L['problems']
             if(len(L['data']) == 0):
                 continue # skip ahead if there aren't any readable data files here
 
@@ -305,7 +309,6 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             ## update the gps file
             if(len(wgps) > 0):
                 gps.to_csv(gpsfile, index=False, mode='a', header=False)
-            problems += L['problems']
         ## run the conversion and write new converted files
         while((hour_to_write + file_length_sec) <= p[-1].stats.endtime):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
@@ -493,13 +496,15 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     ## at this point, if we don't have any files, raise a missing file exception
     if len(fnList) == 0:
         raise MissingRawFiles(str(path) + ': ' + str(nums))
+    dropped_files = []
     while True:
         if len(fnList) == 0: # at this point, if we have no files, they're all corrupt. 
             raise CorruptRawFile(str(path) + ': ' + str(nums))
         try:
             version = _read_format_version(fnList[0])
             config = _read_config(fnList[0])
-        except Exception: # if we can't read the config for the first file here, drop it and try the next one
+        except Exception as e: # if we can't read the config for the first file here, drop it and try the next one
+            dropped_files.append(f'Failed to read {fnList[0]}: {e}')
             fnList = fnList[1:] # 
         else:
             break
@@ -510,6 +515,8 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     else:
         raise Exception(fnList[0] + ': Invalid or missing data format')
 
+    L['problems'] = dropped_files + L['problems']
+
     ## stop early if we don't have data to process
     if len(L['data']) == 0:
         raise CorruptRawFileInadequateGPS('Inadequate GPS information in data files ' + str(nums) + ' for SN "' + SN + '" in raw directory ' + str(path))
-- 
2.43.0


From 97897f18d362c584bbd2de6ebf947ee41e8cbbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 07/52] fix: convert respects t2 (and float t1/t2) instead of
 writing past it and crashing

---
 gemlog/core.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index c64b2e3..66c1058 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -220,9 +220,16 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         p = _merge_gaps(p)
         t1 = p[0].stats.starttime
         t1 = obspy.core.UTCDateTime(np.ceil(float(t1)))
+    else:
+        t1 = obspy.core.UTCDateTime(t1)
 
     if(np.isinf(float(t2))):
         t2 = obspy.core.UTCDateTime.strptime('9999-12-31 23:59:59', '%Y-%m-%d %H:%M:%S') # timekeeping apocalypse
+    else:
+        t2 = obspy.core.UTCDateTime(t2)
+    p.trim(endtime = t2) # p never includes data after t2
+    if len(p) == 0:
+        raise MissingRawFiles(f'No data found in folder "{rawpath}" before {t2}')
   
     wsn = 0
     while(len(SN) < 3): # take the first non-NA SN. This is important because there can be blank files in there.
@@ -274,7 +281,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             break # already converted the requested data
         ## load new data if necessary
         tt2 = min(t2, _trunc_UTCDateTime(t1, 86400*blockdays) + 86400*blockdays)
-        while((p[-1].stats.endtime < tt2) & (n1 <= max(nums))):
+        while(((len(p) == 0) or (p[-1].stats.endtime < tt2)) and (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
@@ -300,6 +307,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                     print('Problem with files, skipping: ' + L['header'].file[i])
 
             p = _merge_gaps(p + L['data'])
+            p.trim(endtime = t2)
                 
             ## start metadata and gps files
             metadata = L['metadata']   
@@ -310,10 +318,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             if(len(wgps) > 0):
                 gps.to_csv(gpsfile, index=False, mode='a', header=False)
         ## run the conversion and write new converted files
-        while((hour_to_write + file_length_sec) <= p[-1].stats.endtime):
+        while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
             hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            p.trim(hour_to_write, t2)
+            p.trim(hour_to_write)
             p = p.split()
             if(len(p) > 0):
                 hour_to_write = p[0].stats.starttime
@@ -321,12 +329,12 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 break
             
         ## update start time to convert
-        p.trim(hour_to_write, t2)
+        p.trim(hour_to_write)
         t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
     ## done reading new files. write what's left and end.
-    while((hour_to_write <= p[-1].stats.endtime) & (len(p) > 0)):
+    while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
         hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-        p.trim(hour_to_write, t2)
+        p.trim(hour_to_write)
         p = p.split()
         if(len(p) > 0):
             hour_to_write = p[0].stats.starttime
-- 
2.43.0


From e4412692742ba0720681a797bb455edc6e34f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 08/52] fix: traces starting in the same second no longer
 overwrite each other's converted file

---
 gemlog/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 66c1058..cd2c6a8 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -351,9 +351,13 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
     # Ideally, this would write mseed files with data gaps (masked arrays) if the stream here has
     # a gap. Unfortunately, those fail to write, so we have to write multiple files instead.
     pp = pp.split() 
+    filenames = []
     for tr in pp:
         tr.stats.calib = bitweight
         fn = _make_filename_converted(tr, output_format)
+        if fn in filenames: # an earlier trace starts in the same second; don't overwrite it
+            fn = fn.replace('.', f'_{tr.stats.starttime.microsecond:06}.', 1)
+        filenames.append(fn)
         if(len(tr) > 0):
             print(tr)
             if(output_format.lower() == 'wav'):
-- 
2.43.0


From a080440727552ea0d7a330fcb320c424649574e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 09/52] fix: the parser skips incomplete lines instead of
 filling them with an earlier line's values

---
 gemlog/parsers.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 030908f..cbe4b4d 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -96,8 +96,10 @@ def parse_gemfile(filename, n_row = 1560000):
             if n_matched == 1: # failed to read the 2-element format, try just 1 element
                 view[line_number, 0] = DmsSamp
                 DmsSamp = (prev_dD_millis + 10) % (2**13)
-            else: # n_matched == 2
+            elif n_matched == 2:
                 view[line_number, 0] = ADC
+            else: # incomplete line
+                continue
             millis_view[line_number] = DmsSamp
             prev_dD_millis = DmsSamp
 
@@ -108,6 +110,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                "%lf,%lf,%d,%d,%d,%d,%d,%lf,%lf,%lf",
                                &msPPS, &msLag, &yr, &mo, &day, &hr, &mn,
                                &sec, &lat, &lon)
+            if n_matched != 10: # incomplete line; the unread values would be left over from an earlier line
+                continue
             view[line_number, 0] = msLag
             view[line_number, 1] = yr
             view[line_number, 2] = mo
@@ -128,6 +132,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                &ms, &batt, &temp, &A2, &A3, &maxLag,
                                &minFree, &maxUsed, &maxOver, &gpsFlag,
                                &freeStack1, &freeStackIdle)
+            if n_matched != 12: # incomplete line; the unread values would be left over from an earlier line
+                continue
             view[line_number, 0] = batt
             view[line_number, 1] = temp
             view[line_number, 2] = A2
-- 
2.43.0


From 40c75acff7b62a02c2d3bf7c236a19687838bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 10/52] fix: gem_cat refuses to write into its input folder,
 where it would overwrite raw files

---
 gemlog/gem_cat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index 6375525..e0c2050 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -40,6 +40,8 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
             raise Exception('Output path ' + output_dir + ' does not exist and cannot be created')
         else:
             print('Created output folder ' + output_dir)
+    if os.path.realpath(input_dir) == os.path.realpath(output_dir):
+        raise Exception('Output path ' + output_dir + ' must be different from the input path; raw files would be overwritten')
     gem_files = sorted(glob.glob(input_dir + '/' + 'FILE[0-9][0-9][0-9][0-9].' + ext + '*'))
     
     has_gps = np.zeros(len(gem_files))
-- 
2.43.0


From 88a181e28365b5e7e2f686e762b772e087fd5120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 11/52] fix: report a raw file whose serial number cannot be
 read instead of silently leaving it out

---
 gemlog/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index cd2c6a8..3ad4e30 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -155,13 +155,16 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     
     ## filter out raw files whose serial numbers don't match SN
     fn_new = []
+    problems = []
     corrupt_files_flag = False
     for file in fn:
         try:
             if _read_SN(file) == SN:
                 fn_new.append(file)
-        except Exception:
+        except Exception as e:
             corrupt_files_flag = True
+            if file[-3:] == SN: # this logger's file: note it
+                problems.append(f'Corrupt raw file {file}, skipping this file: {e}')
             pass # if we can't read the file's SN, it's corrupt and should be skipped
     fn = fn_new
     
@@ -187,7 +190,6 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
   
     ## read the first set of up to (24*blockdays) files
     L = _new_gem_var()
-    problems = []
     while((L['data'].count() == 0) & (n1 <= max(nums))): ## read sets of files until we get one that isn't empty
         nums_block = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))] # files are 2 hours, so 12 files is 24 hours
         n1 = n1 + (12*blockdays) # increment file number counter
-- 
2.43.0


From d65c6a463ccfeef67af6395eab5008adcab77d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:34 +0000
Subject: [PATCH 12/52] fix: the command-line programs accept the long options
 they document

---
 gemlog/gem_cat.py           | 2 +-
 gemlog/gemconvert.py        | 4 +++-
 gemlog/gemconvert_single.py | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index e0c2050..f255a93 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -177,7 +177,7 @@ def main(argv = None):
     outputdir = 'raw_merged'
     ext = ''
     try:
-        opts, args = getopt.getopt(argv,"hi:o:e:")
+        opts, args = getopt.getopt(argv,"hi:o:e:", ["help", "inputdir=", "outputdir=", "ext="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 2f8e93a..eba6ce3 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -88,7 +88,9 @@ def main(argv = None):
 
     ## parse options selected by user
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",["inputdir=","serialnumber="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",
+                                   ["help", "debug", "test", "inputdir=", "serialnumbers=", "exclude_serialnumbers=",
+                                    "codesfile=", "outputdir=", "format=", "length=", "parallel="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
diff --git a/gemlog/gemconvert_single.py b/gemlog/gemconvert_single.py
index 009c01a..b255c9d 100755
--- a/gemlog/gemconvert_single.py
+++ b/gemlog/gemconvert_single.py
@@ -28,7 +28,8 @@ def main(argv = None):
     output_file = None
     force_conversion = False
     try:
-        opts, args = getopt.getopt(argv,"hfi:o:")
+        opts, args = getopt.getopt(argv,"hfi:o:",
+                                   ["help", "force-conversion", "force_conversion", "input_file=", "output_file="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
@@ -42,7 +43,7 @@ def main(argv = None):
             input_file = arg
         elif opt in ("-o", "--output_file"):
             output_file = arg
-        elif opt in ("-f", "--force_conversion"):
+        elif opt in ("-f", "--force-conversion", "--force_conversion"):
             force_conversion = True
 
     print(f'gemlog version {gemlog.__version__}')
-- 
2.43.0


From da280cb4a10f59edc8eebe9b0f29146026671a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 13/52] fix: read_gps parses times without the date_parser
 argument that pandas removed

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b032b28..6bee446 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -426,7 +426,7 @@ def read_gps(gps_dir_pattern, SN):
                 fnList = []
         if len(fnList) > 0: # if any gps files matching SN are found, read and append the last
             gpsTable = pd.concat([gpsTable,
-                                  pd.read_csv(fnList[-1], parse_dates = ['t'], date_parser = obspy.UTCDateTime)], ignore_index=True)
+                                  pd.read_csv(fnList[-1], converters = {'t': obspy.UTCDateTime})], ignore_index=True)
     return gpsTable
 ReadLoggerGPS = read_gps # alias; v1.0.0
 
-- 
2.43.0


From 997bd2efa1564f9f66951788204afac6d0ca2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 14/52] fix: the low-gain response uses the low-gain (64000
 counts/V) logger file

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 6bee446..45163ba 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -116,7 +116,7 @@ def get_gem_response(gain = 'high', sensor_file = '', logger_file = ''):
         if gain.lower() == 'high':
             logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
         elif gain.lower() == 'low':
-            logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
+            logger_file = 'RESP.XX.GM001..HHZ.GEMINFRAV1.1.100'
         else:
             raise ValueError(f'invalid gain: {gain}')
     response = _read_response(os.path.join(response_path, 'datalogger', logger_file))
-- 
2.43.0


From 9a8c6d5c68514861cd3061271ce2d55b073792e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 15/52] fix: gem_make_inventory passes the parsed serial number
 lists to summarize_gps

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 45163ba..9e6cbee 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -635,7 +635,7 @@ def summarize_gps_terminal(input = sys.argv[1:]):
 
     coords = summarize_gps(gps_folder, station_info = station_info_file,
                            output_file = output_file + '.csv', t1 = args.t1, t2 = args.t2,
-                           include_SN = args.include_SNs, exclude_SN = args.exclude_SNs)
+                           include_SN = include_SNs, exclude_SN = exclude_SNs)
     response = gemlog.get_gem_response(gain = 'high')
     if 'station' not in coords.keys():
         coords['station'] = coords['SN']
-- 
2.43.0


From bc0ed755124dedb2a89595bc01c480c4ecf3190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 16/52] fix: station info files without a header line are read,
 keeping serial numbers and codes as text

---
 gemlog/gem_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 9e6cbee..28ebccf 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -154,7 +154,7 @@ def _get_station_info(station_info):
     required_keys = ['sn', 'network', 'station', 'location']
     if type(station_info) == str:
         print('Reading file %s' % station_info)
-        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False)
+        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False, dtype = 'str', keep_default_na = False)
         header_list = [header_df[key][0] for key in header_df.keys()]
         if all([i.lower() in (required_keys + ['elevation']) for i in header_list]): # file has header line
             print('File has valid header, using that for column names')
@@ -162,10 +162,10 @@ def _get_station_info(station_info):
         else:
             if len(header_list) == 4:
                 print('File does not have a valid header, using default columns [SN, network, station, location]')
-                station_info = pd.read_csv(station_info, names = required_keys, dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys, dtype = 'str', keep_default_na = False, index_col = False)
             elif len(header_list) == 5:
                 print('File does not have a valid header, using default columns [SN, network, station, location, elevation]')
-                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = 'str', keep_default_na = False, index_col = False)
             else:
                 raise Exception('invalid station_info file; must have 4 or 5 columns or valid header')
         ## if any keys are capitalized or abbreviated wrong, correct them
-- 
2.43.0


From ce2f792aad8f8b1b6cccbc9c5db06ef50421cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 17/52] fix: the network and location columns of a station info
 file are optional, as documented

---
 gemlog/gem_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 28ebccf..3c97e05 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -176,6 +176,10 @@ def _get_station_info(station_info):
         #station_info = _fix_station_info_keys(station_info)
         if any([key not in station_info.keys() for key in required_keys]):
             raise Exception('invalid station_info input')
+    # network and location columns are optional
+    for key in ['network', 'location']:
+        if key not in station_info.keys():
+            station_info[key] = ''
     # if location and network fields are blank in file, they are interpreted as nan and must be
     # turned back into blank
     if 'elevation' not in station_info.keys():
-- 
2.43.0


From e534b3e0a91e52d984ab9808b10dde7091d8cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 18/52] fix: station info given as a DataFrame needs the SN
 column it is used by, not 'sn'

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 3c97e05..eb1707a 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -174,7 +174,7 @@ def _get_station_info(station_info):
         raise Exception('invalid station_info input')
     else:
         #station_info = _fix_station_info_keys(station_info)
-        if any([key not in station_info.keys() for key in required_keys]):
+        if any([key not in station_info.keys() for key in ['SN', 'network', 'station', 'location']]):
             raise Exception('invalid station_info input')
     # network and location columns are optional
     for key in ['network', 'location']:
-- 
2.43.0


From c5b3393612d71c674460fdf418e377b6035cd6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 19/52] fix: make_gem_inventory skips a network none of whose
 stations has coordinates

---
 gemlog/gem_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index eb1707a..e7d91d4 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -276,6 +276,9 @@ def make_gem_inventory(station_info, coords, response = 'default'):
             station.start_date = np.min([channel.start_date for channel in station.channels])
             station.end_date = np.max([channel.end_date for channel in station.channels])
             network.stations.append(station)
+        ## skip this network if it is empty
+        if len(network.stations) == 0:
+            continue
         ## append the current network to the inventory
         network.start_date = np.min([station.start_date for station in network.stations])
         network.end_date = np.max([station.end_date for station in network.stations])
-- 
2.43.0


From 0247c0ed8a34b3963393b431ed192eae0a9d70ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 20/52] fix: name the serial number in the message about
 missing GPS data

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index e7d91d4..daae6b3 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -537,7 +537,7 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
                 ], ignore_index = True)
                                
         else:
-            print('No non-outliers remaining for gem {SN}')
+            print(f'No non-outliers remaining for gem {SN}')
     if station_info is not None:
         station_info = _get_station_info(station_info)
         network = []
-- 
2.43.0


From 019f5d2a543cae672c9f01f85a596d243aff4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:57 +0000
Subject: [PATCH 21/52] fix: gemconvert_single's usage line names the option it
 accepts (-f), not -g

---
 gemlog/gemconvert_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemconvert_single.py b/gemlog/gemconvert_single.py
index b255c9d..c3841c9 100755
--- a/gemlog/gemconvert_single.py
+++ b/gemlog/gemconvert_single.py
@@ -12,7 +12,7 @@ except Exception as e:
     sys.exit(2)
 
 def print_call():
-    print('gemconvert_single -i <input_file> -o <outputdir> -g <gps_required>')
+    print('gemconvert_single -i <input_file> -o <output_file> -f')
     print('-i --input_file')
     print('-o --output_file: default ./<input_file>.mseed')
     print('-f --force-conversion: convert file even if it doesn\'t have enough GPS points for')
-- 
2.43.0


From 382443d6affd6db2877a76dc1a72fff5cb5cc485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 22/52] fix: GPS lines with a missing latitude, longitude or
 lag are dropped, not kept with NaN

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 3ad4e30..8c51814 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -964,7 +964,7 @@ def _gps_in_bounds(G):
     bad_gps = False
     for key, (lo, hi) in limits.items():
         data = G[key]
-        bad_gps |= (data < lo) | (data > hi)
+        bad_gps |= ~((data >= lo) & (data <= hi)) # missing values (nan) are bad too
 
     # custom limits:
     bad_gps |= (
-- 
2.43.0


From 4ea9c0abe5f0050b675332f9349a5d153ff2bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 23/52] fix: old-format (0.8, 0.85) counters are moved on by
 their own rollover between files

---
 gemlog/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 8c51814..38dcc6c 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1070,9 +1070,10 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 raise CorruptRawFile('Invalid raw file format version: ' + str(version))
             ## make sure the first millis is > startMillis
             if(L['data'][0,0] < startMillis):
-                L['metadata'].millis += 2**13
-                L['gps'].msPPS += 2**13
-                L['data'][:,0] += 2**13
+                rollover = 2**16 if str(version) in ['0.8', '0.85'] else 2**13
+                L['metadata'].millis += rollover
+                L['gps'].msPPS += rollover
+                L['data'][:,0] += rollover
             ## if the millis series is discontinuous, reject the file
             dMillis = np.diff(L['data'][:,0])
             if any(dMillis < 0) or any(dMillis > 1000):
-- 
2.43.0


From 76e9edcb126b977e7389a53032634ef5bde9af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 24/52] fix: gemconvert_single reads old-format (0.8, 0.85)
 files with their own layout

---
 gemlog/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 38dcc6c..02ccdc6 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1549,7 +1549,11 @@ def _convert_one_file(input_filename, output_filename = None, require_gps = True
     try:
         if not os.path.exists(input_filename):
             raise MissingRawFiles(f'File "{input_filename}" not found')
-        L = _read_several([input_filename], require_gps = require_gps)
+        try:
+            version = _read_format_version(input_filename)
+        except Exception:
+            raise CorruptRawFile(f'{input_filename}: missing format version')
+        L = _read_several([input_filename], version = version, require_gps = require_gps)
         piecewiseTimeFit = L['header'].iloc[0,:]
     
         L['metadata']['t'] = _apply_fit(L['metadata']['millis'], piecewiseTimeFit)
-- 
2.43.0


From 9b87448701c2c8651daf43d24b9a1f07f293b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 25/52] fix: a gap next to the first or last sample is a break,
 not interpolated over

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 02ccdc6..8fece2b 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1305,7 +1305,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     t1 = t_in[t_in >= (t1 - 0.01 - eps)][0]
     t2 = t_in[t_in <= (t2 + .01 + eps)][-1] # add a sample because t2 is 1 sample before the hour
     breaks_raw = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
-    breaks = breaks_raw[(t_in[breaks_raw] > t1) & (t_in[breaks_raw+1] < t2)]
+    breaks = breaks_raw[(t_in[breaks_raw] >= t1) & (t_in[breaks_raw+1] <= t2)] # a chunk of one sample is left out by w_same below
     starts = np.hstack([t1, t_in[breaks+1]]) # start times of continuous chunks
     ends = np.hstack([t_in[breaks], t2]) # end times of continuous chunks
     w_same = (starts != ends)
-- 
2.43.0


From 624446a4d4799946f38dffbf4f31569731d4440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 26/52] fix: a chunk shorter than one sample interval no longer
 ends the conversion

---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 8fece2b..3b910ab 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1326,6 +1326,8 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
         t_interp = np.round(starts[i] + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
+        if len(t_interp) == 0: # the chunk is shorter than one sample interval
+            continue
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
         tr = obspy.Trace(p_interp)
         tr.stats.starttime = t_interp[0]
-- 
2.43.0


From 62371250c39f83cf41e2f1288087e5b3ba8ad13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 27/52] fix: repeated or backward sample times no longer make a
 whole stretch of data disappear

---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 3b910ab..2e5c9ad 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1316,6 +1316,8 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     output = obspy.Stream()
     for i in range(len(starts)):
         w = (t_in >= (starts[i] - 0.01 - eps)) & (t_in <= (ends[i] + 0.01 - eps))
+        w = np.flatnonzero(w)
+        w = w[np.diff(np.maximum.accumulate(t_in[w]), prepend = -np.inf) > 0] # the spline needs increasing times
         try:
             f = scipy.interpolate.CubicSpline(t_in[w], p_in[w])
         except Exception:
-- 
2.43.0


From 7508b347ced42b2294e8e3cac308eb35e39a5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 28/52] fix: convert no longer stops up to a day before t2

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2e5c9ad..0718bd2 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -332,7 +332,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             
         ## update start time to convert
         p.trim(hour_to_write)
-        t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
+        t1 = tt2 + 0.001 # just after the interval converted so far
     ## done reading new files. write what's left and end.
     while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
         hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-- 
2.43.0


From df364bacbe8c2e1b48b40f59d75ba9c8486a693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 29/52] fix: the default response of make_gem_inventory is the
 Gem's, not the word 'default'

---
 gemlog/gem_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index daae6b3..79e7a3e 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -224,6 +224,10 @@ def make_gem_inventory(station_info, coords, response = 'default'):
     elif any([key not in coords.keys() for key in ['lat', 'lon', 'elevation']]):
         raise Exception("invalid coords; must contain keys 'lat', 'lon', 'elevation'")
     
+    ## by default, use the standard Gem response
+    if isinstance(response, str) and response == 'default':
+        response = get_gem_response()
+
     ## create the inventory and loop through all the networks, stations, and locations in it
     inventory = obspy.Inventory()
     all_networks = _unique(station_info['network'])
-- 
2.43.0


From 95a5f578f93e611c83b8f16ca5118dfb968cb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 30/52] fix: write_wav no longer replaces the samples of the
 trace it is given by normalised ones

---
 gemlog/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 0718bd2..2264e6c 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -394,14 +394,14 @@ def write_wav(tr, filename = None, path = '.', time_format = '%Y-%m-%dT%H_%M_%S'
     ## having trouble with integer format, although it is allowed. force float
     ## format instead, which is probably more useful anyway. This needs to be
     ## centered about zero and scaled to fit in the -1 to 1 range.
-    tr.data = tr.data.astype(float) - np.mean(tr.data)
-    ref = np.abs(tr.data).max()
+    data = tr.data.astype(float) - np.mean(tr.data) # a copy: leave the user's trace as it is
+    ref = np.abs(data).max()
     if ref > 0:  ## prevent divide-by-zero
-        tr.data /= ref
+        data /= ref
     ## sample rate must be an int
     if int(tr.stats.sampling_rate) != tr.stats.sampling_rate:
         raise TypeError('sample rate must be an integer')
-    wavfile.write(path + '/' + filename, int(tr.stats.sampling_rate), tr.data)
+    wavfile.write(path + '/' + filename, int(tr.stats.sampling_rate), data)
     
 
 def _trunc_UTCDateTime(x, n=86400):
-- 
2.43.0


From 0e4ed2bcb4579f36703e7a353d7f9885d544c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 31/52] fix: gem_cat no longer repeats the first reading of an
 appended file after a blank line

---
 gemlog/gem_cat.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index f255a93..8c1d5d7 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -106,6 +106,14 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
             AppendFile(gem_files[k], out_file, gem_files[k-1])
     return 
 
+def _first_data_line(infile):
+    """Index of the first line of a raw file that holds data; every line counts, blank ones too"""
+    with open(infile, 'r') as IF:
+        for j, line in enumerate(IF):
+            if line[0] == 'D':
+                return j
+    raise EmptyRawFile(infile)
+
 #%%
 #infile = gem_files[1]
 #outfile = out_file
@@ -123,14 +131,7 @@ def AppendFile(infile, outfile, prev_infile):
         p_start = int(_read_single(prev_infile, require_gps = False, version = format)['data'][-1,1])
 
         ## read the first data line of the infile and convert it to an ADC reading difference
-        j=0
-        while True:
-            ###################
-            linetype = pd.read_csv(infile, skiprows = j, delimiter = '\t', nrows=1, dtype = 'str', names=['s']).s[0][0]
-            ###############
-            if linetype == 'D':
-                break
-            j += 1
+        j = _first_data_line(infile)
 
         ## adjust the data line and append it to the outfile
         s = pd.read_csv(infile, delimiter = ',', nrows=1, skiprows=j, dtype = 'str', names=['c1','c2'])
@@ -146,13 +147,8 @@ def AppendFile(infile, outfile, prev_infile):
     else:
         ## earlier format version
         ## Find the end of the header and append the infile to the outfile past that point
-        j=0
-        while True:
-            linetype = pd.read_csv(infile, skiprows = j, delimiter = '\t', nrows=1, dtype = 'str', names=['s']).s[0][0]
-            if linetype == 'D':
-                break
-            j += 1
-        
+        j = _first_data_line(infile)
+
         ## append the rest of the file
         #system(paste0('tail -n +', j+1, ' ', infile, ' >> ', outfile))
         with open(outfile, 'a') as OF, open(infile, 'r') as IF:
-- 
2.43.0


From 0f2d5eddf7b7233fed757f98c97c3111be35f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 32/52] fix: gem_cat no longer glues the first appended reading
 to an unfinished last line

---
 gemlog/gem_cat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index 8c1d5d7..138ef65 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -125,6 +125,12 @@ def AppendFile(infile, outfile, prev_infile):
     if not os.path.exists(outpath):
         os.makedirs(outpath)
         
+    # a raw file can end in the middle of a line; what is appended must start on a new one
+    with open(prev_infile, 'rb') as IF:
+        if IF.read()[-1:] not in (b'', b'\n'):
+            with open(outfile, 'a') as OF:
+                OF.write('\n')
+
     format = _read_format_version(infile)
     if format in ['0.85C', '0.9', '0.91', '1.10']:
         ## find the pressure at the end of the previous file
-- 
2.43.0


From 6635888a4ec0e448b37800675089f194dd3c9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 33/52] fix: station info tables with any index give every
 logger its own codes, and are not changed

---
 gemlog/gem_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 79e7a3e..6c0295a 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -176,6 +176,8 @@ def _get_station_info(station_info):
         #station_info = _fix_station_info_keys(station_info)
         if any([key not in station_info.keys() for key in ['SN', 'network', 'station', 'location']]):
             raise Exception('invalid station_info input')
+        # a copy with rows numbered from 0, however the user's table is indexed
+        station_info = station_info.reset_index(drop = True)
     # network and location columns are optional
     for key in ['network', 'location']:
         if key not in station_info.keys():
-- 
2.43.0


From fd2af3ef935f507812b41a114a96667c8faa3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 34/52] fix: rename_files no longer overwrites the output of
 one input file by that of another

---
 gemlog/gem_network.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 6c0295a..bf9b7a9 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -326,6 +326,7 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
     infiles = glob.glob(infile_pattern)
     infiles.sort()
     assert len(infiles) > 0, 'No input files provided'
+    output_files = []
     for i, infile in enumerate(infiles):
         st = obspy.read(infile)
         fileParts = infile.split('/')[-1].split('.')
@@ -351,6 +352,12 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
                            'loc':location, 'chan':'HDF', 'fmt':output_format}
         outfile_pattern = _fix_file_name_digits(outfile_pattern)
         output_file = outfile_pattern.format(**trace_info_dict)
+        n = 1
+        while output_file in output_files: # don't overwrite what an earlier input file was renamed to
+            head, dot, tail = outfile_pattern.format(**trace_info_dict).partition('.')
+            output_file = f'{head}_{n}{dot}{tail}'
+            n += 1
+        output_files.append(output_file)
         st.write(output_dir + '/' + output_file, format = output_format)
         print(str(i+1) + ' of ' + str(len(infiles)) + ': ' + infile + ', ' + output_file)
     return station_info
-- 
2.43.0


From 0d75475f783a1ba67af9b26fb578afdc8cde4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 35/52] fix: summarize_gps ignores data outside t1 to t2 also
 when it looks for outliers

---
 gemlog/gem_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index bf9b7a9..ada0eee 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -539,8 +539,8 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
     seFun = lambda x: np.std(x)/np.sqrt(len(x))
     for i, SN in enumerate(snList):
         print(str(i+1) + ' of ' + str(len(snList)) + ': ' + SN)
-        gpsTable = _remove_outliers(read_gps(gps_dir_pattern, SN))
-        gpsTable = gpsTable.iloc[np.where((gpsTable.t >= t1) & (gpsTable.t <= t2))[0], :]
+        gpsTable = read_gps(gps_dir_pattern, SN)
+        gpsTable = _remove_outliers(gpsTable.iloc[np.where((gpsTable.t >= t1) & (gpsTable.t <= t2))[0], :])
         if gpsTable.shape[0] > 0:
             coords = pd.concat([
                 coords,
-- 
2.43.0


From f99f0c350bdd13c8e2dab6ad4a87ea50dd77b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 36/52] fix: merge_files_day no longer mixes files with and
 without a network code

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index ada0eee..f7ff4aa 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -377,7 +377,7 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
     ## for each item, read all the files and 
     for day, suffix in zip(days, suffixes):
         print(day + ' ' + suffix)
-        x = obspy.read(infile_path + '/' + day + '*' + suffix)
+        x = obspy.read(infile_path + '/' + day + '*.' + suffix)
         x.merge(fill_value = 'latest', method = 1)
         x.write(outfile_dir + '/' + day + 'T00_00_00.' + suffix)
     return
-- 
2.43.0


From 31fd2766e65c3998a1751ee5e1c3b34217dadb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 37/52] fix: blank elevations in a station info file are read
 as missing

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index f7ff4aa..dbc7031 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -188,7 +188,7 @@ def _get_station_info(station_info):
         station_info['elevation'] = np.zeros(station_info.shape[0]) - 9999
         
     if station_info['elevation'].dtype == 'str':
-        station_info['elevation'] = station_info['elevation'].astype('float')
+        station_info['elevation'] = station_info['elevation'].replace('', 'nan').astype('float')
         
     station_info.loc[station_info.location.isna(), 'location'] = ''
     station_info.loc[station_info.network.isna(), 'network'] = ''
-- 
2.43.0


From 52252497133a99af5a7f8c8622206fdbf203ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 38/52] fix: read_gps reads only GPS files, and of the whole
 serial number

---
 gemlog/gem_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index dbc7031..9e0014c 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -437,10 +437,10 @@ def read_gps(gps_dir_pattern, SN):
     gpsTable = pd.DataFrame(columns=['year', 'date', 'lat', 'lon', 't'])
     for gpsDir in gpsDirList:
         if os.path.isdir(gpsDir):
-            fnList = sorted(glob.glob(gpsDir + '/' + SN + '*'))
+            fnList = sorted(glob.glob(gpsDir + '/' + SN + 'gps*'))
         else:
             # in case the user provides the gps filename directly. requires that the filename start with SN.
-            if pathlib.Path(gpsDir).name[:3] == SN:
+            if pathlib.Path(gpsDir).name.split('gps')[0] == SN:
                 fnList = [gpsDir]
             else:
                 fnList = []
-- 
2.43.0


From 51d1cec6b3f83ff6ef3cc32545d5bdd0577f14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 39/52] fix: ims_noise accepts 'medium', as its documentation
 says

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index bf94719..0ea784f 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -299,7 +299,7 @@ def ims_noise(model = 'low', freq = None, spectype = 'power', freq_min = None, f
     freq_in = noise_spec['f']
     if model.lower() in ['low', 'min']:
         power_in = 10**noise_spec['min']
-    elif model.lower() == 'med':
+    elif model.lower() in ['med', 'medium']:
         power_in = 10**noise_spec['med']
     elif model.lower() in ['high', 'hi', 'max']:
         power_in = 10**noise_spec['max']
-- 
2.43.0


From 572812c38d1f2f0dad0520ede09b3f7a34234636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 40/52] fix: calc_channel_stats collects its rows instead of
 concatenating a data frame to a list

---
 gemlog/gemlog_aux.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 0ea784f..9580d8d 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -196,8 +196,7 @@ def calc_channel_stats(DB, t1, t2):
         else:
             q1 = np.quantile(np.array(DB.amp_HP)[w], 0.25)
             q3 = np.quantile(np.array(DB.amp_HP)[w], 0.75)
-            out = pd.concat([out,
-                             pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3'])])
+            out.append(pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3']))
     out = pd.concat(out)
     return(out)
 
-- 
2.43.0


From a4043468927acda372c26d3fc3c50e08420f5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 41/52] fix: upsample_ratio takes effect whether or not overlap
 is given

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 82bedc5..f084bcb 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -314,7 +314,7 @@ def xcorr_one_day(st, args = {}):
     fh = args.get('fh') if args.get('fh') is not None else 40
     win_length_sec = args.get('win_length_sec') if args.get('win_length_sec') is not None else 5
     overlap = args.get('overlap') if args.get('overlap') is not None else 0
-    upsample_ratio = args.get('upsample_ratio') if args.get('overlap') is not None else 1
+    upsample_ratio = args.get('upsample_ratio') if args.get('upsample_ratio') is not None else 1
     _validate_inputs(fl, fh, win_length_sec, overlap, upsample_ratio)
 
     if upsample_ratio != 1:
-- 
2.43.0


From d072fd78e0c99b3906aba3a2edc9ea030f50f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 42/52] fix: data that make a single window no longer divide by
 zero

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index f084bcb..464a31b 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -404,7 +404,7 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
     num_windows = 1 + int(np.ceil((data_length_sec - win_length_sec) / (win_length_sec * (1 - overlap)) - eps))
     output_dict = {'t_mid':[]}
     for i in range(num_windows):
-        win_start = t1 + i*(data_length_sec - win_length_sec) / (num_windows-1)
+        win_start = t1 + i*(data_length_sec - win_length_sec) / max(num_windows-1, 1)
         st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
         win_dict = f(st_tmp, args)
         #if i == 0:
-- 
2.43.0


From d5ea990a31c5594a904efb59e31eba63d843cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 43/52] fix: the day-by-day loop no longer processes part of
 the second day twice or runs past t2

---
 gemlog/xcorr.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 464a31b..e1b0b02 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -231,17 +231,8 @@ def loop_through_days(function, filenames, t1 = '1970-01-01', t2 = '9999-12-31',
             break
     day_starts = np.array(day_starts)
 
-    day_ends = [day_starts[0]+86400] # bug here; causes problems with part-day files. Only run full-day files.
-    #day_ends = [day_starts[0].replace(hour=0, minute=0, second=0, microsecond=0)] # this fix didn't work
-
-    while True:
-        new_time = (day_ends[-1]+86400+2).replace(hour=0, minute=0, second=0) # add 24 hours + 2 sec, then round down
-        if new_time < t2:
-            day_ends.append(new_time)
-        else:
-            day_ends.append(t2)
-            break
-    day_ends = np.array(day_ends)
+    ## each day ends where the next one begins
+    day_ends = np.array(list(day_starts[1:]) + [t2])
 
     files_read = []
     output_list = []
-- 
2.43.0


From ce9dd9f45bbcae6534a856e52afdd2d0de1092b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 44/52] fix: summarize_gps reported a name error instead of an
 invalid gps_dir_pattern

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 9e0014c..c37a34b 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -523,7 +523,7 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
             else:
                 gpsFileList.append(fn)
     else:
-        raise Exception(f'invalid type for gpsDirList {gpsDirList}; must be str or list')
+        raise Exception(f'invalid type for gps_dir_pattern {gps_dir_pattern}; must be str or list')
     
     gpsFileList = sorted(gpsFileList)
     snList = []
-- 
2.43.0


From 749b4192a82583ea7a136c2c2d0407b1aceaae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 45/52] fix: a failed conversion ended a worker process in
 which gemlog._debug is not set

---
 gemlog/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/__init__.py b/gemlog/__init__.py
index 8c8e324..3cbb632 100644
--- a/gemlog/__init__.py
+++ b/gemlog/__init__.py
@@ -13,4 +13,6 @@ from gemlog.gemlog_aux import make_db, calc_channel_stats, gem_noise, ims_noise
 from gemlog.gem_cat import gem_cat
 from gemlog.huddle_test import verify_huddle_test
 from gemlog.version import __version__
+
+_debug = False # set by command-line programs
 from gemlog.huddle_test import verify_huddle_test
-- 
2.43.0


From 5a91fbef0b5f5575572f7bb541c61df59c251122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 46/52] fix: calc_channel_stats and invert_for_slowness no
 longer change the user's tables

---
 gemlog/gemlog_aux.py | 1 +
 gemlog/xcorr.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 9580d8d..800562f 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -184,6 +184,7 @@ def calc_channel_stats(DB, t1, t2):
     t1 = obspy.core.UTCDateTime(t1)
     t2 = obspy.core.UTCDateTime(t2)
     numHour = (t2 - t1)/3600.0
+    DB = DB.copy() # don't change the user's table
     DB.t1 = DB.t1.apply(T)
     DB.t2 = DB.t2.apply(T)
     DB.goodData = (DB.amp_HP > 0.5) & (DB.amp_HP < 2e4) & ((DB.t2 - DB.t1) > 3598) & ((DB.t2 - DB.t1) < 3602)
diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index e1b0b02..ceeba13 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -137,6 +137,7 @@ def invert_for_slowness(xcorr_df, locations):
         if re.search('rms', key):
             data_short_IDs.append(key.split('_')[1])
             
+    locations = locations.copy() # don't change the user's table
     locations['ID'] = [f'{locations.network[i]}.{locations.station[i]}.{locations.location[i]}' for i in range(locations.shape[0])]
     keep_indices = np.where(np.isin(locations.ID, data_short_IDs))[0]
     locations = locations.iloc[keep_indices, :]
-- 
2.43.0


From 2594b63bc201764f6c6aaaa52bf854a91d745a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 47/52] fix: the problems convert reports no longer come in the
 arbitrary order of a file listing

---
 gemlog/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2264e6c..7929709 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -152,6 +152,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     else:
         fn = glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.' + SN) + \
             glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.TXT')
+    fn.sort() # the order in which the system lists files is arbitrary
     
     ## filter out raw files whose serial numbers don't match SN
     fn_new = []
-- 
2.43.0


From 514e42832cf22b5b78952b471395bd21920c4f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 48/52] fix: documented defaults of convert and read_gem were
 not those in effect

---
 gemlog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 7929709..17d8add 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -96,7 +96,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         If you have memory issues when converting data, try setting this
         to a smaller value.
 
-    file_length_hour : float, default 1
+    file_length_hour : float, default 24
         Length of the output files in hours.
             
     station : str
@@ -431,7 +431,7 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
 
     Parameters
     ----------
-    path : str, default '.' 
+    path : str, default 'raw'
         Path of folder containing raw Gem data files to read.
 
     nums : list or np.array of integers
@@ -485,7 +485,7 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
         If True, return extra output to understand the internal state of the function.
 
     require_gps : boolean, default True
-        If True, read files whether or not they have GPS data. Sample times will not be
+        If False, read files whether or not they have GPS data. Sample times will not be
         precise enough for array processing.
 
     Returns
-- 
2.43.0


From 330d6453c106f149dbc3aeb41de86e7ad27c3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 49/52] fix: the fallback reader passed over compact data lines
 instead of refusing the file

---
 gemlog/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 17d8add..ea68745 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -791,6 +791,9 @@ def _read_with_pandas(filename, require_gps = True):
         df['linetype'] = [value[0] for value in df[0]] # exception if any 'value' is not a string
     except Exception:
         raise CorruptRawFile(filename)
+    if df['linetype'].str.match('[a-z]').any():
+        # compact data lines (format 1.10): only the cython reader can decode them
+        raise CorruptRawFile(filename)
     if ('G' not in set(df.loc[:,'linetype'])) and require_gps:
         raise CorruptRawFileNoGPS(filename)
                     
-- 
2.43.0


From 36ad7769e13a1ffa66072f661d7a6463969be3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 50/52] fix: the extent of the GPS fixes left after outliers
 was measured on the wrong axis

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index ea68745..f9d388e 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1148,7 +1148,7 @@ def _calculate_drift(L, fn, require_gps):
             ## run the GPS time vs millis regression
             reg, num_gps_nonoutliers, MAD_nonoutliers, resid, xx, yy = _robust_regress(L['gps'].msPPS, L['gps'].t)
             ## ensure that the regression was successful
-            if ((0.001024*(L['data'][-1,0] - L['data'][0,0]) / (xx.iloc[-1] - xx.iloc[0])) > 2) \
+            if ((0.001024*(L['data'][-1,0] - L['data'][0,0]) / (yy.iloc[-1] - yy.iloc[0])) > 2) \
                or (num_gps_nonoutliers < 10) \
                or MAD_nonoutliers > 0.01:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
-- 
2.43.0


From c0a399db1b1d964f0eb3109fa773bd96aebca3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 51/52] fix: a data line cut short in a text reader made all
 data of the file vanish

---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index f9d388e..e9cc045 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -760,6 +760,7 @@ def _read_0_8_pd(filename, require_gps = True):
     df = df.iloc[np.where(~np.isnan(df.iloc[:,1]))[0],:] # error-prone if any "Nones" are in df[1]
     df['linetype'] = df.iloc[:,0].copy()
     df = df.iloc[:,1:]
+    df = df.loc[(df['linetype'] != 'D') | df[2].notna(), :] # drop incomplete data lines
     
     if ('G' not in set(df.loc[:,'linetype'])) and require_gps:
         raise CorruptRawFileNoGPS(filename)
@@ -798,6 +799,7 @@ def _read_with_pandas(filename, require_gps = True):
         raise CorruptRawFileNoGPS(filename)
                     
     df = df.loc[df.loc[:,'linetype'].isin(['D', 'M', 'G']), :]
+    df = df.loc[(df['linetype'] != 'D') | df[1].notna(), :] # drop incomplete data lines
     ## most of the runtime is before here
     # unroll the ms rollover sawtooth
     df['millis-sawtooth'] = np.where(df['linetype'] == 'D',df[0].str[1:],df[1]).astype(int)
-- 
2.43.0


From 5ebfa19d7ac2e560d71e241ab8c4d363c5cfffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 52/52] fix: a quotation mark in a damaged line made the text
 readers pass over the lines after it

---
 gemlog/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index e9cc045..77af42a 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -742,10 +742,10 @@ def _read_0_8_pd(filename, require_gps = True):
     # the C engine for pd.read_csv is fast but crashes sometimes. Use the python engine as a backup.
     try:
         # read 15 columns for 'R,2' lines
-        df = pd.read_csv(filename, names=range(15), low_memory=False, skiprows=6, encoding_errors='ignore')
+        df = pd.read_csv(filename, names=range(15), low_memory=False, skiprows=6, quoting=csv.QUOTE_NONE, encoding_errors='ignore')
     except Exception:
         try:
-            df = pd.read_csv(filename, names=range(15), engine='python', skiprows=6,
+            df = pd.read_csv(filename, names=range(15), engine='python', skiprows=6, quoting=csv.QUOTE_NONE,
                              on_bad_lines = 'skip', # replacement for error/warn_bad_lines, available since pandas 1.3.0
                              encoding_errors='ignore')
         except Exception as exception_message:
@@ -777,11 +777,11 @@ def _read_with_pandas(filename, require_gps = True):
     # skiprows is important so that the header doesn't force dtype=='object'
     # the C engine for pd.read_csv is fast but crashes sometimes. Use the python engine as a backup.
     try:
-        df = pd.read_csv(filename, names=range(13), low_memory=False, skiprows=6,
+        df = pd.read_csv(filename, names=range(13), low_memory=False, skiprows=6, quoting=csv.QUOTE_NONE,
                          encoding_errors='ignore') # consider lineterminator = '\n' for encoding problems
     except Exception:
         try:
-            df = pd.read_csv(filename, names=range(13), engine='python', skiprows=6,
+            df = pd.read_csv(filename, names=range(13), engine='python', skiprows=6, quoting=csv.QUOTE_NONE,
                              on_bad_lines = 'skip', encoding_errors='ignore')
         except Exception:
             raise CorruptRawFile(filename)
-- 
2.43.0

