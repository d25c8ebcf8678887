From eccd71600bfa774f6ab89353518b877d083d3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 01/33] fix: restore padded and aligned structured dtypes
 without inventing fields

---
 bloscpack/numpy_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 99c0cff..cc2ba0e 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -8,6 +8,7 @@ import ast
 import blosc
 import numpy
 import six
+from numpy.lib.format import descr_to_dtype
 from six.moves import xrange
 from deprecated import deprecated
 
@@ -136,6 +137,10 @@ class PlainNumpySink(PlainSink):
             dtype_ = ast.literal_eval(metadata['dtype'])
         except (ValueError, SyntaxError):
             dtype_ = _conv(metadata['dtype'])
+        # The descr of a structured dtype describes padding as unnamed void
+        # fields, which the dtype() constructor would turn into real fields.
+        if isinstance(dtype_, list):
+            dtype_ = descr_to_dtype(dtype_)
         self.ndarray = numpy.empty(metadata['shape'],
                                    dtype=numpy.dtype(dtype_),
                                    order=metadata['order'])
-- 
2.43.0


From 80a8ffd518a4cf78894530ce80151c991283c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 02/33] fix: record metadata level 0 when the metadata is not
 compressed

---
 bloscpack/file_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 2e802da..a694e86 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -121,7 +121,9 @@ def _write_metadata(output_fp, metadata, metadata_args):
             magic_format=metadata_args.magic_format,
             meta_checksum=metadata_args.meta_checksum,
             meta_codec=metadata_args.meta_codec_name,
-            meta_level=metadata_args.meta_level,
+            # the format demands level 0 for uncompressed metadata
+            meta_level=(metadata_args.meta_level
+                        if metadata_args.should_compress else 0),
             meta_size=meta_size,
             max_meta_size=max_meta_size,
             meta_comp_size=meta_comp_size).encode()
-- 
2.43.0


From b8e58037d81afc5888fc0f2aaf12fea8fba8dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 03/33] fix: do not deactivate the codec in the caller's
 metadata arguments

---
 bloscpack/file_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index a694e86..cbf969a 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -82,6 +82,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
 
     """
     _check_metadata_arguments(metadata_args)
+    # the codec may be deactivated below, leave the caller's object alone
+    metadata_args = metadata_args.copy()
     metadata_total = 0
     metadata_total += METADATA_HEADER_LENGTH
     serializer_impl = SERIALIZERS_LOOKUP[metadata_args.magic_format]
-- 
2.43.0


From ff38d6080e793ca378c683facbbeb7f467dbc7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 04/33] fix: refuse files with an unknown number of chunks
 instead of reading nothing

---
 bloscpack/file_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index cbf969a..aeb4a89 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -366,6 +366,9 @@ class CompressedFPSource(CompressedSource):
                 self.offsets = _read_beginning(input_fp)
         self.checksum_impl = self.bloscpack_header.checksum_impl
         self.nchunks = self.bloscpack_header.nchunks
+        if self.nchunks == -1:
+            raise ValueError(
+                "unable to read a file with an unknown number of chunks")
 
     def __iter__(self):
         for i in xrange(self.nchunks):
-- 
2.43.0


From d20a93635d9a6b7625a77fc743189d68a9ac5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 05/33] fix: check chunk digests whenever the file has a
 checksum

A digest cut off at the end of the file, or missing in memory, was empty
and skipped the comparison.
---
 bloscpack/abstract_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index 40687ec..d55eb4b 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -177,7 +177,7 @@ def unpack(source, sink):
             log.debug("decompressing chunk '%d'%s" %
                     (i, ' (last)' if source.nchunks is not None
                     and i == source.nchunks - 1 else ''))
-        if digest:
+        if source.checksum_impl.size > 0:
             computed_digest = source.checksum_impl(compressed)
             if digest != computed_digest:
                 raise ChecksumMismatch(
-- 
2.43.0


From cf8113a1c36ddea70c3b12b7d1896d5b04c880e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 06/33] fix: refuse chunks whose Blosc header claims less than
 its own size

A zeroed chunk of a crc32 file read as an empty chunk with a matching
(all zero) checksum.
---
 bloscpack/file_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index aeb4a89..1fc0805 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -327,6 +327,10 @@ def _read_compressed_chunk_fp(input_fp, checksum_impl):
     if log.LEVEL == log.DEBUG:
         log.debug('blosc_header: %s' % repr(blosc_header))
     ctbytes = blosc_header['ctbytes']
+    if ctbytes < BLOSC_HEADER_LENGTH:
+        # e.g. a zeroed region, b'' would even have a crc32 of all zeros
+        raise ValueError("invalid compressed size '%d' in Blosc header" %
+                         ctbytes)
     # Seek back BLOSC_HEADER_LENGTH bytes in file relative to current
     # position. Blosc needs the header too and presumably this is
     # better than to read the whole buffer and then concatenate it...
-- 
2.43.0


From f3dbf08d634d8c37188e0ed4a901feeacf8ffcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 07/33] fix: verify the checksum of the last chunk before
 appending to it

A damaged last chunk was decompressed, re-compressed and stored with a
fresh, valid checksum.
---
 bloscpack/append.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5ffac81..6df3916 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -37,6 +37,7 @@ from .defaults import (DEFAULT_CLEVEL,
 from .exceptions import (NoMetadataFound,
                          NoChangeInMetadata,
                          ChecksumLengthMismatch,
+                         ChecksumMismatch,
                          )
 from .file_io import (PlainFPSource,
                       CompressedFPSink,
@@ -117,7 +118,13 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # decompress the last chunk
     compressed, blosc_header, digest = _read_compressed_chunk_fp(original_fp,
                                                          checksum_impl)
-    # TODO check digest
+    if checksum_impl.size > 0:
+        computed_digest = checksum_impl(compressed)
+        if digest != computed_digest:
+            raise ChecksumMismatch(
+                    "Checksum mismatch detected in last chunk, "
+                    "expected: '%s', received: '%s'" %
+                    (repr(digest), repr(computed_digest)))
     decompressed = blosc.decompress(compressed)
     # figure out how many bytes we need to read to rebuild the last chunk
     ultimo_length = len(decompressed)
-- 
2.43.0


From df8e0e23bec382dd666724969afc487710b2dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 08/33] fix: do not divide by zero after appending an empty
 file

---
 bloscpack/append.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 6df3916..a379978 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -226,8 +226,9 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    log.verbose('Approximate compression ratio of appended data: %f' %
-            ((orig_size_after-orig_size_before)/new_size))
+    if new_size > 0:
+        log.verbose('Approximate compression ratio of appended data: %f' %
+                ((orig_size_after-orig_size_before)/new_size))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From bad5ad2e60a8c460701fc3cfc332e448134798ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 09/33] fix: do not fill in the caller's Blosc arguments when
 appending

Re-using them for another file applied the first file's typesize.
---
 bloscpack/append.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index a379978..c46adda 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -93,6 +93,9 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
                            'is not yet supported')
     if blosc_args is None:
         blosc_args = dict(zip(BLOSC_ARGS, [None] * len(BLOSC_ARGS)))
+    else:
+        # unset values are filled in below, leave the caller's object alone
+        blosc_args = blosc_args.copy()
     # handle blosc_args
     if blosc_args['typesize'] is None:
         if bloscpack_header.typesize == -1:
-- 
2.43.0


From 61d5be2f8166c0a7d7091205f5ccc2c31822fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 10/33] fix: do not overwrite the typesize in the caller's
 Blosc arguments

---
 bloscpack/numpy_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index cc2ba0e..347c933 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -185,6 +185,8 @@ def pack_ndarray(ndarray, sink,
         blosc_args = BloscArgs(typesize=ndarray.dtype.itemsize)
     else:
         log.debug("Ignoring 'typesize' in blosc_args")
+        # leave the caller's object alone
+        blosc_args = blosc_args.copy()
         blosc_args.typesize = ndarray.dtype.itemsize
     source = PlainNumpySource(ndarray)
     nchunks, chunk_size, last_chunk_size = \
-- 
2.43.0


From 10b794d9bbb1712741f0322abe45710132cad55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 11/33] fix: close the file after reading an array from it

---
 bloscpack/numpy_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 347c933..d071590 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -332,8 +332,9 @@ def unpack_ndarray_from_file(filename):
     NotANumpyArray
         if the source doesn't seem to contain a Numpy array
     """
-    source = CompressedFPSource(open(filename, 'rb'))
-    return unpack_ndarray(source)
+    with open(filename, 'rb') as fp:
+        source = CompressedFPSource(fp)
+        return unpack_ndarray(source)
 
 
 unpack_ndarray_file = deprecated(unpack_ndarray_from_file,
-- 
2.43.0


From c7484737760fc5477c5c1c53a83b9dc9065fbd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 12/33] fix: report errors on the command line instead of an
 AttributeError

Exceptions have no 'message' attribute in Python 3.
---
 bloscpack/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fea7548..c7af543 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -162,7 +162,7 @@ def process_metadata_args(args):
             with open(args.metadata, 'r') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
-            log.error(ioe.message)
+            log.error(str(ioe))
 
 
 def process_nthread_arg(args):
@@ -473,9 +473,9 @@ def main():
             if metadata:
                 log_metadata(metadata)
         except FormatVersionMismatch as fvm:
-            log.error(fvm.message)
+            log.error(str(fvm))
         except ChecksumMismatch as csm:
-            log.error(csm.message)
+            log.error(str(csm))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
-- 
2.43.0


From ad3749fdffc7681e94e9efa11e4d13d988fc0962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 13/33] fix: report files with foreign metadata as not being a
 Numpy array

Metadata that is not a dictionary, or has no container, ended in a
TypeError or KeyError.
---
 bloscpack/numpy_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index d071590..b2f046c 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -122,7 +122,8 @@ class PlainNumpySink(PlainSink):
 
     def __init__(self, metadata):
         self.metadata = metadata
-        if metadata is None or metadata['container'] != 'numpy':
+        if not isinstance(metadata, dict) \
+                or metadata.get('container') != 'numpy':
             raise NotANumpyArray
         # The try except is a backwards compatability hack for the old way of
         # serializing ndarray dtype which was used prior to 0.7.2. For basic
-- 
2.43.0


From 466575b295ea42d69fb628ae3f8ff517a1ea24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 14/33] fix: refuse to restore object arrays

The bytes in the file would have been used as object pointers.
---
 bloscpack/numpy_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index b2f046c..efc3fbe 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -142,8 +142,12 @@ class PlainNumpySink(PlainSink):
         # fields, which the dtype() constructor would turn into real fields.
         if isinstance(dtype_, list):
             dtype_ = descr_to_dtype(dtype_)
+        dtype_ = numpy.dtype(dtype_)
+        if dtype_.hasobject:
+            # the chunks would be interpreted as pointers
+            raise ObjectNumpyArrayRejection
         self.ndarray = numpy.empty(metadata['shape'],
-                                   dtype=numpy.dtype(dtype_),
+                                   dtype=dtype_,
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
 
-- 
2.43.0


From e2336e2fea72564af30b5a3846b48daa08b0e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 15/33] fix: do not write outside the array or return
 uninitialised memory

The chunks were decompressed to a raw pointer whatever their size.  Now
they must fill the array described by the metadata exactly.
---
 bloscpack/numpy_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index efc3fbe..e5f6f41 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -32,6 +32,8 @@ from .exceptions import (NotANumpyArray,
                          ObjectNumpyArrayRejection,
                          ChunkSizeTypeSizeMismatch,
                          )
+from .headers import (decode_blosc_header,
+                      )
 from .pretty import (double_pretty_size,
                      )
 from . import log
@@ -150,10 +152,14 @@ class PlainNumpySink(PlainSink):
                                    dtype=dtype_,
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
+        self.remaining = self.ndarray.nbytes
 
     def put(self, compressed):
+        if decode_blosc_header(compressed)['nbytes'] > self.remaining:
+            raise NotANumpyArray("the chunks contain more data than the array")
         bwritten = blosc.decompress_ptr(compressed, self.ptr)
         self.ptr += bwritten
+        self.remaining -= bwritten
         return bwritten
 
 
@@ -316,6 +322,8 @@ def unpack_ndarray(source):
 
     sink = PlainNumpySink(source.metadata)
     unpack(source, sink)
+    if sink.remaining != 0:
+        raise NotANumpyArray("the chunks contain less data than the array")
     return sink.ndarray
 
 
-- 
2.43.0


From 9daa66134944dfc4cf08d8d4696b890887aeae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 16/33] fix: refuse a chunk size of zero like a negative one

---
 bloscpack/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index c7af543..1c16fe7 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -303,7 +303,7 @@ def create_parser():
                         value = int(value)
                 except ValueError as ve:
                     log.error('%s error: %s' % (option_string, str(ve)))
-                if value < 0:
+                if value <= 0:
                     log.error('%s must be > 0' % option_string)
             setattr(namespace, self.dest, value)
     for p in [compress_parser, c_parser]:
-- 
2.43.0


From 95fe431dfa0e316b26716d5775c787ef01614e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 17/33] fix: record the right last chunk size when appending to
 a file that has none

The size was added to the -1 that stands for unknown.
---
 bloscpack/append.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index c46adda..23e6857 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -144,7 +144,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         _write_compressed_chunk(original_fp, compressed, digest)
         # return 0 to indicate that no new chunks have been written
         # build the new header
-        bloscpack_header.last_chunk += new_size
+        # (the old value may be -1, unknown)
+        bloscpack_header.last_chunk = ultimo_length + new_size
         # create the new header
         raw_bloscpack_header = bloscpack_header.encode()
         original_fp.seek(0)
-- 
2.43.0


From c574cc7eeffe4316e36255ee4908fcf3b26614bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 18/33] fix: do not write offsets over metadata that is null
 when appending

---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 23e6857..8decc8d 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -115,7 +115,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     offsets_pos = (BLOSCPACK_HEADER_LENGTH +
                   (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                       CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
-                   if metadata is not None else 0))
+                   if bloscpack_header.metadata else 0))
     # seek to the final offset
     original_fp.seek(offsets[-1], 0)
     # decompress the last chunk
-- 
2.43.0


From 3199485d4a7087047ee5d494f61df36945bf26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 19/33] fix: make set_level set the level

---
 bloscpack/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/log.py b/bloscpack/log.py
index a5cdc87..f9e4a23 100644
--- a/bloscpack/log.py
+++ b/bloscpack/log.py
@@ -21,9 +21,11 @@ def set_prefix(prefix):
 
 
 def set_level(level):
+    global LEVEL
     if level not in VERBOSITY_LEVELS:
         raise ValueError('Log level must be one of: %s, not %s' %
                          (VERBOSITY_LEVELS, level))
+    LEVEL = level
 
 
 def verbose(message, level=VERBOSE):
-- 
2.43.0


From 377d63e73c1d76c28672b955a4115da05897adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 20/33] fix: report unusable chunk sizes on the command line
 like the others

---
 bloscpack/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 1c16fe7..7a7bb3a 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -296,15 +296,18 @@ def create_parser():
             else:
                 try:
                     # try to get the value as bytes
-                    if value[-1] in SUFFIXES.keys():
+                    if value[-1:] in SUFFIXES.keys():
                         value = reverse_pretty(value)
                     # seems to be intended to be a naked int
                     else:
                         value = int(value)
-                except ValueError as ve:
+                except (ValueError, OverflowError) as ve:
                     log.error('%s error: %s' % (option_string, str(ve)))
                 if value <= 0:
                     log.error('%s must be > 0' % option_string)
+                if value > blosc.BLOSC_MAX_BUFFERSIZE:
+                    log.error('%s must be <= %d'
+                              % (option_string, blosc.BLOSC_MAX_BUFFERSIZE))
             setattr(namespace, self.dest, value)
     for p in [compress_parser, c_parser]:
         _inject_blosc_group(p)
-- 
2.43.0


From 93d9357bc6039dd0717774c912ff23eea92ac93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 21/33] fix: strip only the padding when decoding magic strings

---
 bloscpack/headers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/headers.py b/bloscpack/headers.py
index e1e7ec5..83f270d 100644
--- a/bloscpack/headers.py
+++ b/bloscpack/headers.py
@@ -128,9 +128,9 @@ def decode_bitfield(byte):
 
 def decode_magic_string(str_):
     if PY3:
-        return str_.strip(b'\x00')
+        return str_.rstrip(b'\x00')
     else:
-        return str_.strip('\x00')
+        return str_.rstrip('\x00')
 
 
 def encode_uint8(byte):
-- 
2.43.0


From f15adb8e2f325e75df06b02851088879c12e9b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 22/33] fix: show the metadata header in info when the metadata
 is null

---
 bloscpack/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 7a7bb3a..495f715 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -522,7 +522,7 @@ def main():
         if offsets:
             log.normal("'offsets':")
             log.normal("[%s,...]" % (",".join(str(o) for o in offsets[:5])))
-        if metadata is not None:
+        if bloscpack_header.metadata:
             log_metadata(metadata)
             log.normal(metadata_header.pformat())
         log.normal("First chunk blosc header:")
-- 
2.43.0


From 9aee4900b12bdc79412cf09523e8ade24d00fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 23/33] fix: print what the output cannot represent escaped
 instead of failing

---
 bloscpack/log.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bloscpack/log.py b/bloscpack/log.py
index f9e4a23..b147157 100644
--- a/bloscpack/log.py
+++ b/bloscpack/log.py
@@ -28,6 +28,16 @@ def set_level(level):
     LEVEL = level
 
 
+def _print_line(line):
+    """ Print line, escaping what the output can not represent. """
+    line = '%s: %s' % (PREFIX, line)
+    try:
+        print(line)
+    except UnicodeEncodeError:
+        # e.g. the name of a file which is not valid in the locale
+        print(line.encode('ascii', 'backslashreplace').decode('ascii'))
+
+
 def verbose(message, level=VERBOSE):
     """ Print message with desired verbosity level. """
     if level not in VERBOSITY_LEVELS:
@@ -35,7 +45,7 @@ def verbose(message, level=VERBOSE):
                         str(VERBOSITY_LEVELS)))
     if VERBOSITY_LEVELS.index(level) <= VERBOSITY_LEVELS.index(LEVEL):
         for line in [l for l in message.split('\n') if l != '']:
-            print('%s: %s' % (PREFIX, line))
+            _print_line(line)
 
 
 def debug(message):
@@ -51,5 +61,5 @@ def normal(message):
 def error(message, exit_code=1):
     """ Print message and exit with desired code. """
     for line in [l for l in message.split('\n') if l != '']:
-        print('%s: error: %s' % (PREFIX, line))
+        _print_line('error: %s' % line)
     sys.exit(exit_code)
-- 
2.43.0


From 53890e45212223fbc3f115fb99def943b5419cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:23 +0000
Subject: [PATCH 24/33] fix: refuse metadata that are cut off even without a
 checksum

---
 bloscpack/file_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 1fc0805..b7b8098 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -224,6 +224,10 @@ def _read_metadata(input_fp):
             log.debug('metadata checksum OK (%s): %s' %
                     (metadata_checksum_impl.name,
                         repr(metadata_received_digest)))
+    if len(metadata) != metadata_header.meta_comp_size:
+        # without a checksum, and part of a JSON number is a JSON number
+        raise ValueError("expected '%d' bytes of metadata but found '%d'" %
+                         (metadata_header.meta_comp_size, len(metadata)))
     if metadata_header.meta_codec != 'None':
         metadata_codec_impl = CODECS_LOOKUP[metadata_header.meta_codec]
         metadata = metadata_codec_impl.decompress(metadata)
-- 
2.43.0


From a0d86043b8000ffe37de265e486b5f1a889985b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 25/33] fix: read on when a file returns less than asked for

A single read of a pipe, a socket or any other unbuffered file may return
less than what was asked for: data were lost without a word when packing
or appending from such a file, and the header announced more than there
was. An input that ends early raises an EOFError instead.
---
 bloscpack/append.py  | 10 +++++++---
 bloscpack/file_io.py | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 8decc8d..996dc68 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -43,6 +43,7 @@ from .file_io import (PlainFPSource,
                       CompressedFPSink,
                       _read_beginning,
                       _read_compressed_chunk_fp,
+                      _read_fully,
                       _write_offsets,
                       _write_compressed_chunk,
                       _read_bloscpack_header,
@@ -135,7 +136,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     if new_size <= bytes_to_read:
         # special case
         # must squeeze data into last chunk
-        fill_up = new_content_fp.read(new_size)
+        fill_up = _read_fully(new_content_fp, new_size)
         # seek back to the position of the original last chunk
         original_fp.seek(offsets[-1], 0)
         # write the chunk that has been filled up
@@ -145,7 +146,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         # return 0 to indicate that no new chunks have been written
         # build the new header
         # (the old value may be -1, unknown)
-        bloscpack_header.last_chunk = ultimo_length + new_size
+        bloscpack_header.last_chunk = ultimo_length + len(fill_up)
         # create the new header
         raw_bloscpack_header = bloscpack_header.encode()
         original_fp.seek(0)
@@ -155,7 +156,10 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # figure out what is left over
     new_new_size = new_size - bytes_to_read
     # read those bytes
-    fill_up = new_content_fp.read(bytes_to_read)
+    fill_up = _read_fully(new_content_fp, bytes_to_read)
+    if len(fill_up) != bytes_to_read:
+        raise EOFError("expected '%d' bytes of input but found '%d'" %
+                       (bytes_to_read, len(fill_up)))
     # figure out how many chunks we will need
     nchunks, chunk_size, last_chunk_size = \
             calculate_nchunks(new_new_size,
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index b7b8098..a104999 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -352,6 +352,40 @@ def _write_compressed_chunk(output_fp, compressed, digest):
         output_fp.write(digest)
 
 
+def _read_fully(input_fp, size):
+    """ Read that many bytes, or all if there are fewer.
+
+    Parameters
+    ----------
+    input_fp : file like
+        the file pointer to read from
+    size : int
+        the number of bytes
+
+    Returns
+    -------
+    data : str
+        the bytes
+
+    Notes
+    -----
+    A single read of a file that is not buffered, e.g. of a pipe or socket, may
+    return less than what was asked for although there is more to come.
+
+    """
+    data = input_fp.read(size)
+    if not 0 < len(data) < size:
+        return data
+    pieces, missing = [data], size - len(data)
+    while missing > 0:
+        data = input_fp.read(missing)
+        if not data:
+            break
+        pieces.append(data)
+        missing -= len(data)
+    return b"".join(pieces)
+
+
 class PlainFPSource(PlainSource):
 
     def __init__(self, input_fp):
@@ -362,7 +396,11 @@ class PlainFPSource(PlainSource):
         for num_bytes in ([self.chunk_size] *
                           (self.nchunks - 1) +
                           [self.last_chunk]):
-            yield self.input_fp.read(num_bytes)
+            chunk = _read_fully(self.input_fp, num_bytes)
+            if len(chunk) != num_bytes:
+                raise EOFError("expected '%d' bytes of input but found '%d'" %
+                               (num_bytes, len(chunk)))
+            yield chunk
 
 
 class CompressedFPSource(CompressedSource):
-- 
2.43.0


From c506a70cea6d88647b1cb27a56c139b4db3b22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:34 +0000
Subject: [PATCH 26/33] fix: read metadata files as UTF-8 whatever the locale

---
 bloscpack/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 495f715..75d28e4 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -4,6 +4,7 @@
 
 
 import argparse
+import io
 from os import path
 import json
 import pprint
@@ -159,7 +160,8 @@ def process_append_args(args):
 def process_metadata_args(args):
     if args.metadata is not None:
         try:
-            with open(args.metadata, 'r') as metadata_file:
+            # JSON is UTF-8, whatever the locale
+            with io.open(args.metadata, encoding='utf-8') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
             log.error(str(ioe))
-- 
2.43.0


From 8ac46918a7d09937f6612528d8ad106b9829481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 27/33] fix: refuse input and output being the same file
 instead of destroying it

---
 bloscpack/append.py  |  2 ++
 bloscpack/cli.py     |  5 ++++-
 bloscpack/file_io.py | 21 +++++++++++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 996dc68..ffa60bf 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -44,6 +44,7 @@ from .file_io import (PlainFPSource,
                       _read_beginning,
                       _read_compressed_chunk_fp,
                       _read_fully,
+                      _check_not_same,
                       _write_offsets,
                       _write_compressed_chunk,
                       _read_bloscpack_header,
@@ -223,6 +224,7 @@ def append(orig_file, new_file, blosc_args=None):
     The blosc_args argument can be supplied if different blosc arguments are
     desired.
     """
+    _check_not_same(new_file, orig_file)
     orig_size_before = path.getsize(orig_file)
     new_size = path.getsize(new_file)
     log.verbose('orig file size before append: %s' %
diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index 75d28e4..a88f78d 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -42,7 +42,8 @@ from .exceptions import (FileNotFound,
                          FormatVersionMismatch,
                          ChecksumMismatch,
                          )
-from .file_io import (pack_file_to_file,
+from .file_io import (_is_same_file,
+                      pack_file_to_file,
                       unpack_file_from_file,
                       _read_beginning,
                       _read_compressed_chunk_fp,
@@ -79,6 +80,8 @@ def check_files(in_file, out_file, args):
     if path.exists(out_file):
         if not args.force:
             raise FileNotFound("output file '%s' exists!" % out_file)
+        elif _is_same_file(in_file, out_file):
+            raise FileNotFound("output file '%s' is the input file!" % out_file)
         else:
             log.verbose("overwriting existing file: '%s'" % out_file)
     log.verbose("input file is: '%s'" % in_file)
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index a104999..cbeee2c 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -386,6 +386,25 @@ def _read_fully(input_fp, size):
     return b"".join(pieces)
 
 
+def _is_same_file(in_file, out_file):
+    """ Whether both names lead to the same, existing file. """
+    try:
+        return path.samefile(in_file, out_file)
+    except OSError:
+        return False
+
+
+def _check_not_same(in_file, out_file):
+    """ Check that input and output are not the same file.
+
+    Opening the output would destroy the input.
+
+    """
+    if _is_same_file(in_file, out_file):
+        raise ValueError("'%s' and '%s' are the same file" %
+                         (in_file, out_file))
+
+
 class PlainFPSource(PlainSource):
 
     def __init__(self, input_fp):
@@ -504,6 +523,7 @@ def pack_file_to_file(in_file, out_file,
     # TODO document which arguments are silently ignored
 
     """
+    _check_not_same(in_file, out_file)
     in_file_size = path.getsize(in_file)
     log.verbose('input file size: %s' % double_pretty_size(in_file_size))
     # calculate chunk sizes
@@ -551,6 +571,7 @@ def unpack_file_from_file(in_file, out_file):
     ChecksumMismatch
         if any of the chunks fail to produce the correct checksum
     """
+    _check_not_same(in_file, out_file)
     in_file_size = path.getsize(in_file)
     log.verbose('input file size: %s' % pretty_size(in_file_size))
     with open(in_file, 'rb') as input_fp, open(out_file, 'wb') as output_fp:
-- 
2.43.0


From bc9c5338e57c6ab6461f8ee553b1740dace54615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:35 +0000
Subject: [PATCH 28/33] fix: refuse inputs that have content but no size
 instead of packing nothing

---
 bloscpack/append.py  |  5 +++--
 bloscpack/file_io.py | 45 ++++++++++++++++++++++++++++++--------------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index ffa60bf..ce966fc 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -45,6 +45,7 @@ from .file_io import (PlainFPSource,
                       _read_compressed_chunk_fp,
                       _read_fully,
                       _check_not_same,
+                      _get_size,
                       _write_offsets,
                       _write_compressed_chunk,
                       _read_bloscpack_header,
@@ -226,12 +227,12 @@ def append(orig_file, new_file, blosc_args=None):
     """
     _check_not_same(new_file, orig_file)
     orig_size_before = path.getsize(orig_file)
-    new_size = path.getsize(new_file)
     log.verbose('orig file size before append: %s' %
             double_pretty_size(orig_size_before))
-    log.verbose('new file size: %s' % double_pretty_size(new_size))
 
     with open(orig_file, 'r+b') as orig_fp, open(new_file, 'rb') as new_fp:
+        new_size = _get_size(new_fp)
+        log.verbose('new file size: %s' % double_pretty_size(new_size))
         append_fp(orig_fp, new_fp, new_size, blosc_args)
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index cbeee2c..0737b28 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -6,6 +6,7 @@
 from __future__ import division
 
 import itertools
+import os
 import os.path as path
 
 import blosc
@@ -405,6 +406,21 @@ def _check_not_same(in_file, out_file):
                          (in_file, out_file))
 
 
+def _get_size(input_fp):
+    """ The size of an input file that has just been opened.
+
+    Raises
+    ------
+    ValueError
+        if it has content but no size, as pipes, devices and some system files
+
+    """
+    size = os.fstat(input_fp.fileno()).st_size
+    if size == 0 and input_fp.read(1):
+        raise ValueError("'%s' has content but no size" % (input_fp.name,))
+    return size
+
+
 class PlainFPSource(PlainSource):
 
     def __init__(self, input_fp):
@@ -524,20 +540,21 @@ def pack_file_to_file(in_file, out_file,
 
     """
     _check_not_same(in_file, out_file)
-    in_file_size = path.getsize(in_file)
-    log.verbose('input file size: %s' % double_pretty_size(in_file_size))
-    # calculate chunk sizes
-    nchunks, chunk_size, last_chunk_size = \
-            calculate_nchunks(in_file_size, chunk_size)
-    with open(in_file, 'rb') as input_fp, open(out_file, 'wb') as output_fp:
-        source = PlainFPSource(input_fp)
-        sink = CompressedFPSink(output_fp)
-        pack(source, sink,
-                nchunks, chunk_size, last_chunk_size,
-                metadata=metadata,
-                blosc_args=blosc_args,
-                bloscpack_args=bloscpack_args,
-                metadata_args=metadata_args)
+    with open(in_file, 'rb') as input_fp:
+        in_file_size = _get_size(input_fp)
+        log.verbose('input file size: %s' % double_pretty_size(in_file_size))
+        # calculate chunk sizes
+        nchunks, chunk_size, last_chunk_size = \
+                calculate_nchunks(in_file_size, chunk_size)
+        with open(out_file, 'wb') as output_fp:
+            source = PlainFPSource(input_fp)
+            sink = CompressedFPSink(output_fp)
+            pack(source, sink,
+                    nchunks, chunk_size, last_chunk_size,
+                    metadata=metadata,
+                    blosc_args=blosc_args,
+                    bloscpack_args=bloscpack_args,
+                    metadata_args=metadata_args)
     out_file_size = path.getsize(out_file)
     log.verbose('output file size: %s' % double_pretty_size(out_file_size))
     log.verbose('compression ratio: %f' % (in_file_size/out_file_size))
-- 
2.43.0


From b6c6b21cb7d07b8e9b9b6139be95260ee0e7b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:51 +0000
Subject: [PATCH 29/33] fix: pack all bytes of buffers whose items are larger
 than a byte

---
 bloscpack/file_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 0737b28..022077d 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -637,7 +637,8 @@ def pack_bytes_to_file(bytes_, out_file,
     ChunkingException
         if there was a problem caculating the chunks
     """
-    bytes_size = len(bytes_)
+    # not len(), which is the number of items
+    bytes_size = memoryview(bytes_).nbytes
     log.verbose('input bytes size: %s' % double_pretty_size(bytes_size))
     # calculate chunk sizes
     nchunks, chunk_size, last_chunk_size = \
@@ -735,7 +736,8 @@ def pack_bytes_to_bytes(bytes_,
     ChunkingException
         if there was a problem caculating the chunks
     """
-    bytes_size = len(bytes_)
+    # not len(), which is the number of items
+    bytes_size = memoryview(bytes_).nbytes
     log.verbose('input bytes size: %s' % double_pretty_size(bytes_size))
     nchunks, chunk_size, last_chunk_size = \
             calculate_nchunks(bytes_size, chunk_size)
-- 
2.43.0


From 554a1c50588a30beb22d826d1f55c99fe7091a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:32 +0000
Subject: [PATCH 30/33] fix: log the real size and ratio of packed bytes
 instead of those of the last seek

---
 bloscpack/file_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 022077d..ab22ecd 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -750,10 +750,11 @@ def pack_bytes_to_bytes(bytes_,
          blosc_args=blosc_args,
          bloscpack_args=bloscpack_args,
          metadata_args=metadata_args)
-    out_bytes_size = sio.tell()
+    out_bytes = sio.getvalue()
+    out_bytes_size = len(out_bytes)
     log.verbose('output bytes size: %s' % double_pretty_size(out_bytes_size))
     log.verbose('compression ratio: %f' % (bytes_size/out_bytes_size))
-    return sio.getvalue()
+    return out_bytes
 
 
 def unpack_bytes_from_bytes(bytes_):
-- 
2.43.0


From 5f85f9ae26f1ece367c603df539535ce2a001eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:32 +0000
Subject: [PATCH 31/33] fix: log the size in bytes of chunks that are not
 strings

---
 bloscpack/abstract_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index d55eb4b..d3450ef 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -160,8 +160,10 @@ def pack(source, sink,
         compressed = compress_func(chunk, blosc_args)
         sink.put(i, compressed)
         if log.LEVEL == log.DEBUG:
+            # what a source yields need not be a string
             log.debug("chunk handled, in: %s out: %s" %
-                    (double_pretty_size(len(chunk)),
+                    (double_pretty_size(last_chunk if i == nchunks - 1
+                                        else chunk_size),
                     double_pretty_size(len(compressed))))
     sink.finalize()
 
-- 
2.43.0


From f2c85c0c2adeb2c8991aafc899e01275097497ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:32 +0000
Subject: [PATCH 32/33] fix: log the compression ratio of appended data, not
 its inverse

---
 bloscpack/append.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index ce966fc..ec7f0cf 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -237,9 +237,9 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    if new_size > 0:
+    if orig_size_after > orig_size_before:
         log.verbose('Approximate compression ratio of appended data: %f' %
-                ((orig_size_after-orig_size_before)/new_size))
+                (new_size/(orig_size_after-orig_size_before)))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From fa915095e94c84a13980705dba668be161d58576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:32 +0000
Subject: [PATCH 33/33] fix: say which option is not zero

---
 bloscpack/headers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/headers.py b/bloscpack/headers.py
index 83f270d..f14f45c 100644
--- a/bloscpack/headers.py
+++ b/bloscpack/headers.py
@@ -100,7 +100,8 @@ def check_options_zero(options, indices):
     for i in indices:
         if options[i] != '0':
             raise ValueError(
-                'Element %i was non-zero when attempting to decode options')
+                'Element %i was non-zero when attempting to decode options' %
+                i)
 
 
 def decode_uint8(byte):
-- 
2.43.0

