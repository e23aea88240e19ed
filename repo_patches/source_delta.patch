From 774ea22cd6c80b9921743a237630aa663fcdfb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:15 +0000
Subject: [PATCH 01/45] fix: do not return bytes past the end of a nonresident
 stream (FragmentedFile.read)

---
 dfir_ntfs/MFT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5b6cfdd..9d7338e 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1461,6 +1461,8 @@ class FragmentedFile(object):
 		if size <= 0 or self.current_offset_in_file >= self.file_size: # Nothing to read.
 			return b''
 
+		size = min(size, self.file_size - self.current_offset_in_file) # Do not read past the end of a file.
+
 		virtual_cluster_number = self.current_offset_in_file // self.cluster_size
 		offset_in_virtual_cluster = self.current_offset_in_file % self.cluster_size
 
-- 
2.43.0


From aa9441662cc47ccc93242f9ea1733757aa650375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:15 +0000
Subject: [PATCH 02/45] fix: refuse mapping pairs that lead to a negative
 cluster number

---
 dfir_ntfs/MFT.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 9d7338e..e561747 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -160,6 +160,10 @@ def DecodeMappingPairs(MappingPairs):
 		else:
 			curr_offset += offset
 
+			if curr_offset < 0:
+				# Invalid value.
+				raise MappingPairsException('Invalid mapping pair: negative cluster number')
+
 			# According to Microsoft, "if this produces a CurrentLcn of 0, then the VCNs from CurrentVcn to NextVcn–1 are unallocated".
 			# However, this is not true for the $Boot file. So, allow the first cluster of a file to be the first cluster of a volume.
 			# ---
-- 
2.43.0


From 398dcfa6605a924c1d136ef7d01fdb2b1e2f5c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:19 +0000
Subject: [PATCH 03/45] fix: look up every hard link by path, ignore records
 with invalid attributes during the lookup

---
 dfir_ntfs/MFT.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index e561747..dc4a4f4 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1080,6 +1080,8 @@ class MasterFileTableParser(object):
 		"""
 
 		def compare_name_against_file_record(name, file_record, case_sensitive):
+			parent_directories = [] # The same name can be used in many directories (hard links).
+
 			for attr in file_record.attributes():
 				if type(attr) is AttributeRecordNonresident:
 					continue
@@ -1089,11 +1091,11 @@ class MasterFileTableParser(object):
 					continue
 
 				if case_sensitive and attr_value.get_file_name() == name:
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 				elif (not case_sensitive) and attr_value.get_file_name().upper() == name.upper():
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 
-			return
+			return parent_directories
 
 		if len(path) == 0:
 			raise MasterFileTableException('An empty path given')
@@ -1118,16 +1120,18 @@ class MasterFileTableParser(object):
 		while i * self.file_record_segment_size < self.file_size:
 			try:
 				file_record = self.get_file_record_by_number(i, None, False)
+				parent_directories = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
 			except MasterFileTableException:
+				# An invalid file record (or invalid attributes in it).
 				pass
 			else:
-				parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
-				if file_record.is_in_use() and parent_directory is not None:
-					if not must_be_directory:
-						candidate_parent_directories.append((parent_directory, file_record))
-					else:
-						if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+				if file_record.is_in_use():
+					for parent_directory in parent_directories:
+						if not must_be_directory:
 							candidate_parent_directories.append((parent_directory, file_record))
+						else:
+							if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+								candidate_parent_directories.append((parent_directory, file_record))
 
 			i += 1
 
@@ -1151,19 +1155,21 @@ class MasterFileTableParser(object):
 						break
 
 				try:
-					file_record = self.get_file_record_by_number(parent_directory_number, parent_directory_expected_sequence_number, False)
-				except MasterFileTableException:
+					path_component = path_components[i]
+				except IndexError:
 					break
 
 				try:
-					path_component = path_components[i]
-				except IndexError:
+					file_record = self.get_file_record_by_number(parent_directory_number, parent_directory_expected_sequence_number, False)
+					parent_directories = compare_name_against_file_record(path_component, file_record, case_sensitive)
+				except MasterFileTableException:
 					break
 
-				parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
-				if parent_directory is None:
+				if len(parent_directories) == 0:
 					break
 
+				parent_directory = parent_directories[0] # A directory has only one parent.
+
 				i += 1
 
 	def build_full_paths(self, file_record, include_attributes = False):
-- 
2.43.0


From c4cd8cc4a565da615d8bd3e00a554f95a8cf4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:19 +0000
Subject: [PATCH 04/45] fix: treat a parent directory without a valid file name
 as an unknown path

---
 dfir_ntfs/MFT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index dc4a4f4..90382b8 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1251,7 +1251,13 @@ class MasterFileTableParser(object):
 
 					current_file_record = parent_file_record
 					while True:
-						file_name, parent_reference = get_preferred_file_name(current_file_record)
+						try:
+							file_name, parent_reference = get_preferred_file_name(current_file_record)
+						except MasterFileTableException:
+							# A parent file record with no valid file name.
+							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
+							break
+
 						parent_segment_number, parent_sequence_number = DecodeFileRecordSegmentReference(parent_reference)
 
 						path_components.append(file_name)
-- 
2.43.0


From c742a203c224dd90e2a7a66dd0cdb20aa741ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:31 +0000
Subject: [PATCH 05/45] fix: decode the GUID of a third-party reparse point
 when the value is a bytearray (as it always is for parsed records)

---
 dfir_ntfs/Attributes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 63c9c04..5d30f1e 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -978,7 +978,10 @@ class ReparsePoint(GenericAttribute):
 		"""Get and return the reparse GUID. Third-party reparse points only!"""
 
 		if not self.is_reparse_tag_microsoft():
-			data = self.value[8 : 24]
+			data = bytes(self.value[8 : 24])
+			if len(data) != 16:
+				return
+
 			return uuid.UUID(bytes_le = data)
 
 	def get_reparse_buffer(self):
-- 
2.43.0


From d9b5f552a38ecb9e36bfbc64f651497ba6292f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 06/45] fix: report an out-of-range WSL timestamp as absent
 instead of raising OverflowError

---
 dfir_ntfs/WSL.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/WSL.py b/dfir_ntfs/WSL.py
index c88fd03..8e6d741 100644
--- a/dfir_ntfs/WSL.py
+++ b/dfir_ntfs/WSL.py
@@ -7,9 +7,12 @@ import struct
 import datetime
 
 def DecodeUnixtime(TimestampSeconds, TimestampNanoseconds):
-	"""Decode the Unixtime timestamp and return the datetime object."""
+	"""Decode the Unixtime timestamp and return the datetime object (or None, if the timestamp is out of range)."""
 
-	return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	try:
+		return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	except OverflowError:
+		return
 
 class LXXATTR(object):
 	"""This class is used to access Linux extended attributes stored in the LXXATTR extended attribute."""
-- 
2.43.0


From e388864df714636957fb36dad45d8b58cfe9e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:52 +0000
Subject: [PATCH 07/45] fix: do not report a nameless orphan long entry (it
 aborted the walk over a FAT volume)

---
 dfir_ntfs/addons/FAT.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 5ccac7a..8cd9314 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1240,7 +1240,8 @@ class DirectoryEntries(object):
 				if not is_long_entry_valid:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None: # Ignore an empty name.
+							yield OrphanLongEntry(long_name_partial)
 
 					# Reset the long name stash and try this entry as the first one in the set.
 					long_entities = []
@@ -1313,7 +1314,8 @@ class DirectoryEntries(object):
 				else:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None: # Ignore an empty name.
+							yield OrphanLongEntry(long_name_partial)
 
 					long_name = None
 			else:
@@ -1445,7 +1447,8 @@ class DirectoryEntries(object):
 
 			if len(long_entities) > 0:
 				long_name_partial = BuildLongName(long_entities)
-				yield OrphanLongEntry(long_name_partial)
+				if long_name_partial is not None: # Ignore an empty name.
+					yield OrphanLongEntry(long_name_partial)
 
 	def __str__(self):
 		return 'DirectoryEntries'
-- 
2.43.0


From 6da67b0565787466aca0c82bbe72a7c6174f4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:47 +0000
Subject: [PATCH 08/45] fix: accept an exFAT cluster heap offset that leaves
 room for all clusters (small volumes with an aligned heap were refused)

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 7cc3e53..5a587ab 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -567,7 +567,7 @@ class BR(object):
 		if cluster_heap_offset < fat_offset + fat_length * number_of_fats:
 			raise BootRegionException('Invalid cluster heap offset (too small)')
 
-		if cluster_heap_offset > cluster_count * sectors_per_cluster:
+		if cluster_heap_offset > volume_length - cluster_count * sectors_per_cluster:
 			raise BootRegionException('Invalid cluster heap offset (too large)')
 
 		if cluster_count > 0xFFFFFFF5:
-- 
2.43.0


From 5ae7e6e3f3e2e720e34e7c6849aa3eaaea6759c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:47 +0000
Subject: [PATCH 09/45] fix: compare reallocated exFAT directories having an
 invalid modification time (it aborted the walk)

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 5a587ab..e2a676f 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1247,7 +1247,7 @@ class FileSystemParser(object):
 								reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 							else:
 								ts = reallocated_directories_metadata[dir_entry.first_cluster][0]
-								if dir_entry.mtime > ts:
+								if ts is None or (dir_entry.mtime is not None and dir_entry.mtime > ts):
 									reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 
 							continue
-- 
2.43.0


From 1003f956acc18cdc264bc6a973555e287a551797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:47 +0000
Subject: [PATCH 10/45] fix: skip an exFAT directory of an invalid size (it
 aborted the walk)

---
 dfir_ntfs/addons/exFAT.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index e2a676f..3bce7e6 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1262,6 +1262,9 @@ class FileSystemParser(object):
 						if len(new_buf) == 0: # This directory is really empty, skip it.
 							continue
 
+						if len(new_buf) % 512 != 0: # This directory has an invalid size, skip it.
+							continue
+
 						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack)):
 							yield item
 
@@ -1291,7 +1294,7 @@ class FileSystemParser(object):
 				except (FileSystemException, ValueError):
 					continue
 
-				if len(buf) < 512 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
+				if len(buf) < 512 or len(buf) % 512 != 0 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
 				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
-- 
2.43.0


From 1d66c88bd0630b8cfc0e290f48ac0bf2c69bb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:14 +0000
Subject: [PATCH 11/45] fix: do not return bytes past the end of a shadow copy
 (ShadowParser.read, ShadowParserTwoVolumes.read)

---
 dfir_ntfs/ShadowCopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 81b6fda..171f18b 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1221,7 +1221,7 @@ class ShadowParser(object):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset:
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
@@ -1765,7 +1765,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset:
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
-- 
2.43.0


From c31342657bfff15135b4b3fb6d93a3aa7802db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:55 +0000
Subject: [PATCH 12/45] fix: parse a log without a client restart area
 (use_dumps was never set)

---
 dfir_ntfs/LogFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index ed3da2e..c371aee 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -716,6 +716,7 @@ class LogFileParser(object):
 
 		self.cluster_size = CLUSTER_SIZE_DEFAULT # Adjusted in the 'collect_lsns' method.
 		self.oat_version = 1 # Adjusted in the 'collect_lsns' method.
+		self.use_dumps = False # Adjusted in the 'collect_lsns' method.
 
 	def lsn_to_offset(self, lsn):
 		"""Convert a log sequence number (LSN) to a file offset, return a (log_page_number, offset_in_page) tuple."""
-- 
2.43.0


From a2410e19bddd20061d768084a12185b11e44b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:55 +0000
Subject: [PATCH 13/45] fix: a malformed client record no longer ends the
 parsing of a log

---
 dfir_ntfs/LogFile.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index c371aee..252dcf2 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1350,18 +1350,18 @@ class LogFileParser(object):
 				client_data = self.get_client_data(lsn)
 				try:
 					client_data_decoded = client_data.data_decoded()
-				except NotImplementedError:
+				except (ClientException, NotImplementedError):
 					pass
 				else:
 					if type(client_data_decoded) is NTFSLogRecord:
 						redo_op = client_data_decoded.get_redo_operation()
 						if redo_op == OpenNonresidentAttribute:
-							attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
-
 							oat_index = client_data_decoded.get_target_attribute()
-							oat_entry_data = client_data_decoded.get_redo_data()
 
 							try:
+								attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
+								oat_entry_data = client_data_decoded.get_redo_data()
+
 								if self.oat_version >= 1:
 									oat_entry = OpenAttributeEntry1(oat_entry_data)
 								else:
@@ -1372,12 +1372,22 @@ class LogFileParser(object):
 							else:
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
+							try:
+								oat_dump_data = client_data_decoded.get_redo_data()
+							except ClientException:
+								oat_dump_data = b''
+
 							old_oat_dump = latest_oat_dump
-							latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							latest_oat_dump = OpenAttributeTableDumpParser(oat_dump_data, self.oat_version)
 							oat_dump_count += 1
 						elif self.use_dumps and redo_op == AttributeNamesDump:
+							try:
+								an_dump_data = client_data_decoded.get_redo_data()
+							except ClientException:
+								an_dump_data = b''
+
 							old_an_dump = latest_an_dump
-							latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							latest_an_dump = AttributeNamesDumpParser(an_dump_data)
 							an_dump_count += 1
 
 						client_data_decoded.oat = oat.copy()
-- 
2.43.0


From e998719edb1aa20eb413691d9cc9023a0f47061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 14/45] fix: keep following log records after the log file is
 wrapped

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 252dcf2..5a3d53c 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -884,7 +884,7 @@ class LogFileParser(object):
 			if client_data_length < 8 or client_data_length % 8 != 0:
 				return
 
-			seqnum_expected = self.lsn_to_seqnum(lsn)
+			seqnum_expected = self.lsn_to_seqnum(current_lsn)
 
 			if client_data_length <= self.log_page_size - offset_in_page - self.record_header_length: # Client data is in the current log record page only.
 				# Try the current log record page.
-- 
2.43.0


From 9defcb55a26ee44c150170d1e87ff79b9793140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 15/45] fix: handle the wrap after a log record which ends in
 the last page

---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 5a3d53c..8082fbb 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -951,6 +951,12 @@ class LogFileParser(object):
 				# Try the next log record page.
 				candidate_log_page_number += 1
 				candidate_offset_in_page = self.log_page_data_offset
+
+				# Handle the wrap.
+				if candidate_log_page_number * self.log_page_size >= self.file_size:
+					candidate_log_page_number = self.get_wrapped_log_record_page_number()
+					seqnum_expected += 1
+
 				candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
 
 				candidate_log_record_page = self.get_log_record_page_by_number(candidate_log_page_number)
-- 
2.43.0


From e0b4446a321859637c611a825c8a26b5dde43211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 16/45] fix: apply a fast page with the end of the last log
 record in the circular area

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 8082fbb..7ab0767 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1245,7 +1245,7 @@ class LogFileParser(object):
 		i = 2
 		while i < 34:
 			fast_page = self.get_log_record_page_by_number(i)
-			if fast_page is not None and fast_page.get_last_lsn() > highest_lsn:
+			if fast_page is not None and fast_page.get_last_lsn() >= highest_lsn:
 				fast_pages.append(fast_page)
 
 			i += 1
-- 
2.43.0


From c0ea6965be3223acb1542531e78aca03b5068c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:19 +0000
Subject: [PATCH 17/45] fix: do not take client data from a log page older than
 the log record

---
 dfir_ntfs/LogFile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 7ab0767..2d31e4e 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1312,6 +1312,9 @@ class LogFileParser(object):
 				if log_record_page is None: # This page is missing in the current state of the log file.
 					break
 
+				if log_record_page.get_last_lsn() != lsn and log_record_page.get_last_end_lsn() < lsn: # This page was not written after this log record, it contains old data.
+					break
+
 				if client_data_length_left >= self.log_page_size - self.log_page_data_offset:
 					client_buf_more_data = log_record_page.buf[self.log_page_data_offset : ]
 				else:
-- 
2.43.0


From 6e72cbdbad072b9af09324eb5ca465fb31574065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:19 +0000
Subject: [PATCH 18/45] fix: do not apply stale or misplaced copies of log
 pages

---
 dfir_ntfs/LogFile.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 2d31e4e..0a01f25 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1197,6 +1197,14 @@ class LogFileParser(object):
 		self.file_object = self.old_file_object
 		self.writable = False
 
+	def is_circular_page_offset(self, file_offset):
+		"""Check if a file offset is valid for a page in the "infinite" (circular) area (a page can also be appended to a truncated log file)."""
+
+		if file_offset is None or file_offset % self.log_page_size != 0 or file_offset // self.log_page_size < self.get_wrapped_log_record_page_number():
+			return False
+
+		return file_offset <= self.file_object.seek(0, 2)
+
 	def apply_tail_page(self):
 		"""Apply a tail log record page to the log file. The log file version should be 1.1. The file object should be writable."""
 
@@ -1224,6 +1232,14 @@ class LogFileParser(object):
 		if single_tail_page is not None: # A proper tail log record page was found.
 			file_offset = single_tail_page.get_file_offset_11()
 
+			if not self.is_circular_page_offset(file_offset):
+				return
+
+			# Do not replace a page with its older copy.
+			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
+			if current_page is not None and current_page.get_last_end_lsn() >= single_tail_page.get_last_end_lsn():
+				return
+
 			self.file_object.seek(file_offset)
 			self.file_object.write(single_tail_page.buf_protected)
 
@@ -1255,6 +1271,9 @@ class LogFileParser(object):
 		for fast_page in fast_pages:
 			file_offset = fast_page.get_file_offset_2x()
 
+			if not self.is_circular_page_offset(file_offset):
+				continue
+
 			self.file_object.seek(file_offset)
 			self.file_object.write(fast_page.buf_protected)
 
-- 
2.43.0


From ce97ff1f95280d4ead1d033f4446f62615dbf16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:04 +0000
Subject: [PATCH 19/45] fix: find log records reachable only through a chain of
 different links

---
 dfir_ntfs/LogFile.py | 161 ++++++++++++++-----------------------------
 1 file changed, 53 insertions(+), 108 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 0a01f25..38a20ef 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1001,6 +1001,25 @@ class LogFileParser(object):
 					if candidate_log_record_header.get_this_lsn() == client_previous_lsn:
 						return client_previous_lsn
 
+		def validate_lsn(lsn):
+			"""Validate and return an LSN. If it is invalid, return None."""
+
+			log_page_number, offset_in_page = self.lsn_to_offset(lsn)
+			if log_page_number == 0:
+				return
+
+			log_record_page = self.get_log_record_page_by_number(log_page_number)
+			if log_record_page is None:
+				return
+
+			try:
+				log_record_header = log_record_page.get_log_record_at_offset(offset_in_page, self.record_header_length)
+			except LogFileException:
+				return
+
+			if lsn == log_record_header.get_this_lsn():
+				return lsn
+
 		def find_undo_next_lsn(current_lsn):
 			"""Give a current LSN, find, validate and return the undo next LSN for the same client. If there is none or something is invalid, return None."""
 
@@ -1034,122 +1053,48 @@ class LogFileParser(object):
 						return client_undo_next_lsn
 
 
-		# Find new LSNs by walking over client data.
-		for lsn in self.lsns.copy():
-			current_lsn = lsn
+		# Find new LSNs by walking over client data, by looking for previous LSNs and undo next LSNs recorded for the same client, and by looking in NTFS restart areas.
+		# Each new LSN found is examined in the same way (until no more LSNs are found).
+		lsns_to_examine = list(self.lsns)
 
-			while True:
-				current_lsn = find_next_lsn(current_lsn)
+		while len(lsns_to_examine) > 0:
+			current_lsn = lsns_to_examine.pop()
 
-				if current_lsn is None or current_lsn in self.lsns: # Loop until a known LSN is encountered or something invalid is found.
-					break
-				else:
-					self.lsns.add(current_lsn)
+			new_lsns = [ find_next_lsn(current_lsn), find_previous_lsn(current_lsn), find_undo_next_lsn(current_lsn) ]
 
-		# Find new LSNs by looking for previous LSNs recorded for the same client.
-		for lsn in self.lsns.copy():
-			current_lsn = lsn
-
-			while True:
-				current_lsn = find_previous_lsn(current_lsn)
-
-				if current_lsn is None or current_lsn in self.lsns: # Loop until a known LSN is encountered or something invalid is found.
-					break
-				else:
-					self.lsns.add(current_lsn)
-
-		# Find new LSNs by looking for undo next LSNs for the same client.
-		for lsn in self.lsns.copy():
-			current_lsn = lsn
-
-			while True:
-				current_lsn = find_undo_next_lsn(current_lsn)
-
-				if current_lsn is None or current_lsn in self.lsns: # Loop until a known LSN is encountered or something invalid is found.
-					break
-				else:
-					self.lsns.add(current_lsn)
-
-		# Find new LSNs by looking in NTFS restart areas.
-		new_lsns = set()
-
-		for lsn in self.lsns.copy():
-			client_data = self.get_client_data(lsn)
+			client_data = self.get_client_data(current_lsn)
 			if client_data.record_type == LfsClientRestart:
 				try:
 					ntfs_restart_area = client_data.data_decoded()
 				except ClientException:
-					continue
-
-				# Adjust the cluster size.
-				cluster_size = ntfs_restart_area.get_bytes_per_cluster()
-				if cluster_size is not None and cluster_size > 0 and cluster_size % 512 == 0:
-					self.cluster_size = cluster_size
-
-				# Adjust the version-specific configuration.
-				self.use_dumps = True
-				major_version = ntfs_restart_area.get_major_version()
-				if major_version >= 1:
-					if major_version >= 2:
-						self.use_dumps = False
-
-					self.oat_version = 1
-				else:
-					self.oat_version = 0
-
-				new_lsns.add(ntfs_restart_area.get_start_of_checkpoint_lsn())
-				new_lsns.add(ntfs_restart_area.get_open_attribute_table_lsn())
-				new_lsns.add(ntfs_restart_area.get_attribute_names_lsn())
-				new_lsns.add(ntfs_restart_area.get_dirty_page_table_lsn())
-				new_lsns.add(ntfs_restart_area.get_transaction_table_lsn())
-
-		for lsn in new_lsns:
-			# Validate a new LSN.
-			log_page_number, offset = self.lsn_to_offset(lsn)
-			if log_page_number == 0:
-				continue
-
-			log_record_page = self.get_log_record_page_by_number(log_page_number)
-			if log_record_page is None:
-				continue
-
-			try:
-				log_record_header = log_record_page.get_log_record_at_offset(offset, self.record_header_length)
-			except LogFileException:
-				continue
-
-			if lsn == log_record_header.get_this_lsn():
-				self.lsns.add(lsn)
-			else:
-				continue
-
-			# Search for new LSNs.
-			current_lsn = lsn
-			while True:
-				current_lsn = find_next_lsn(current_lsn)
-
-				if current_lsn is None or current_lsn in self.lsns: # Loop until a known LSN is encountered or something invalid is found.
-					break
-				else:
-					self.lsns.add(current_lsn)
-
-			current_lsn = lsn
-			while True:
-				current_lsn = find_previous_lsn(current_lsn)
-
-				if current_lsn is None or current_lsn in self.lsns: # Loop until a known LSN is encountered or something invalid is found.
-					break
-				else:
-					self.lsns.add(current_lsn)
-
-			current_lsn = lsn
-			while True:
-				current_lsn = find_undo_next_lsn(current_lsn)
-
-				if current_lsn is None or current_lsn in self.lsns: # Loop until a known LSN is encountered or something invalid is found.
-					break
+					pass
 				else:
-					self.lsns.add(current_lsn)
+					# Adjust the cluster size.
+					cluster_size = ntfs_restart_area.get_bytes_per_cluster()
+					if cluster_size is not None and cluster_size > 0 and cluster_size % 512 == 0:
+						self.cluster_size = cluster_size
+
+					# Adjust the version-specific configuration.
+					self.use_dumps = True
+					major_version = ntfs_restart_area.get_major_version()
+					if major_version >= 1:
+						if major_version >= 2:
+							self.use_dumps = False
+
+						self.oat_version = 1
+					else:
+						self.oat_version = 0
+
+					new_lsns.append(validate_lsn(ntfs_restart_area.get_start_of_checkpoint_lsn()))
+					new_lsns.append(validate_lsn(ntfs_restart_area.get_open_attribute_table_lsn()))
+					new_lsns.append(validate_lsn(ntfs_restart_area.get_attribute_names_lsn()))
+					new_lsns.append(validate_lsn(ntfs_restart_area.get_dirty_page_table_lsn()))
+					new_lsns.append(validate_lsn(ntfs_restart_area.get_transaction_table_lsn()))
+
+			for lsn in new_lsns:
+				if lsn is not None and lsn not in self.lsns:
+					self.lsns.add(lsn)
+					lsns_to_examine.append(lsn)
 
 		self.lsns = sorted(self.lsns) # Finally, store a sorted list of LSNs.
 
-- 
2.43.0


From aea84a310364e0da0e7c86d5faa119c81c2b8865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:31 +0000
Subject: [PATCH 20/45] fix: pair the open attribute table and the attribute
 names of the same checkpoint

---
 dfir_ntfs/LogFile.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 38a20ef..9570d6e 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1309,13 +1309,9 @@ class LogFileParser(object):
 		self.sort_lsns()
 
 		for client_id in self.lsns_sorted.keys():
+			new_oat_dump = None # This dump is not in use until the attribute names from the same checkpoint are found.
 			latest_oat_dump = None
-			old_oat_dump = None
 			latest_an_dump = None
-			old_an_dump = None
-
-			oat_dump_count = 0
-			an_dump_count = 0
 
 			oat = dict()
 
@@ -1350,30 +1346,22 @@ class LogFileParser(object):
 							except ClientException:
 								oat_dump_data = b''
 
-							old_oat_dump = latest_oat_dump
-							latest_oat_dump = OpenAttributeTableDumpParser(oat_dump_data, self.oat_version)
-							oat_dump_count += 1
+							new_oat_dump = OpenAttributeTableDumpParser(oat_dump_data, self.oat_version)
 						elif self.use_dumps and redo_op == AttributeNamesDump:
 							try:
 								an_dump_data = client_data_decoded.get_redo_data()
 							except ClientException:
 								an_dump_data = b''
 
-							old_an_dump = latest_an_dump
-							latest_an_dump = AttributeNamesDumpParser(an_dump_data)
-							an_dump_count += 1
+							if new_oat_dump is not None: # Otherwise, there is no table for these names.
+								latest_oat_dump = new_oat_dump
+								latest_an_dump = AttributeNamesDumpParser(an_dump_data)
+								new_oat_dump = None
 
 						client_data_decoded.oat = oat.copy()
 
-						if self.use_dumps and oat_dump_count > 0 and oat_dump_count == an_dump_count:
-							client_data_decoded.oat_dump = latest_oat_dump
-							client_data_decoded.an_dump = latest_an_dump
-						elif self.use_dumps and oat_dump_count > 0 and oat_dump_count != an_dump_count:
-							client_data_decoded.oat_dump = old_oat_dump
-							client_data_decoded.an_dump = old_an_dump
-						else:
-							client_data_decoded.oat_dump = None
-							client_data_decoded.an_dump = None
+						client_data_decoded.oat_dump = latest_oat_dump
+						client_data_decoded.an_dump = latest_an_dump
 
 					yield client_data_decoded
 
-- 
2.43.0


From ef56262ecfc4683d1528212e497b0169c5d06e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:31 +0000
Subject: [PATCH 21/45] fix: do not take a target from a free entry of an open
 attribute table dump

---
 dfir_ntfs/LogFile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 9570d6e..6ac7762 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1921,4 +1921,7 @@ class OpenAttributeTableDumpParser(object):
 		open_attribute_entry_buf = self.buf[index : ]
 		open_attribute_entry = self.oat_class(open_attribute_entry_buf)
 
+		if open_attribute_entry.get_allocated_or_next_free() != 0xFFFFFFFF:
+			raise ClientException('The entry is not allocated: {}'.format(index))
+
 		return open_attribute_entry.get_file_reference()
-- 
2.43.0


From c6a68e68918ed9e7a9b6a033bc82853a4cba18cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 22/45] fix: do not read the same log record pages again and
 again for an invalid client data length

---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 6ac7762..d9997bd 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1265,6 +1265,7 @@ class LogFileParser(object):
 			client_buf = log_record_header.buf[self.record_header_length : ]
 			client_data_length_left = client_data_length - len(client_buf)
 
+			pages_used = set([log_page_number])
 			while client_data_length_left > 0:
 				log_page_number += 1
 
@@ -1272,6 +1273,11 @@ class LogFileParser(object):
 				if log_page_number * self.log_page_size >= self.file_size:
 					log_page_number = self.get_wrapped_log_record_page_number()
 
+				if log_page_number in pages_used: # The length is invalid: this log record is larger than the log file.
+					break
+
+				pages_used.add(log_page_number)
+
 				log_record_page = self.get_log_record_page_by_number(log_page_number)
 				if log_record_page is None: # This page is missing in the current state of the log file.
 					break
-- 
2.43.0


From ae8810bccbe51361a285c1f84f7df19976411233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:01 +0000
Subject: [PATCH 23/45] fix: report a truncated attribute value as an invalid
 attribute

---
 dfir_ntfs/Attributes.py | 10 ++++++++++
 dfir_ntfs/MFT.py        |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 5d30f1e..70feece 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -1106,3 +1106,13 @@ AttributeTypes = {
 	ATTR_TYPE_EA: ('$EA', EA),
 	ATTR_TYPE_LOGGED_UTILITY_STREAM: ('$LOGGED_UTILITY_STREAM', LoggedUtilityStream)
 }
+
+# The minimum number of bytes required to decode a value (for attributes with a fixed part).
+AttributeMinimumLengths = {
+	ATTR_TYPE_STANDARD_INFORMATION: 48,
+	ATTR_TYPE_FILE_NAME: 66,
+	ATTR_TYPE_VOLUME_INFORMATION: 12,
+	ATTR_TYPE_INDEX_ROOT: 32,
+	ATTR_TYPE_REPARSE_POINT: 8,
+	ATTR_TYPE_EA_INFORMATION: 8
+}
diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 90382b8..6950763 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -513,6 +513,9 @@ class AttributeRecordResident(object):
 
 		if self.type_code in Attributes.AttributeTypes.keys():
 			# A known attribute.
+			if len(self.value) < Attributes.AttributeMinimumLengths.get(self.type_code, 0):
+				raise AttributeException('Truncated attribute value, type: {}, length: {}'.format(self.type_str(), len(self.value)))
+
 			return Attributes.AttributeTypes[self.type_code][1](self.value)
 
 		# An unknown attribute.
-- 
2.43.0


From d7455b5bc6fd340aa9d95b96369f4f1620faf0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:41 +0000
Subject: [PATCH 24/45] fix: stop at a truncated index entry

---
 dfir_ntfs/Attributes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 70feece..fbef978 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -761,6 +761,9 @@ class IndexRoot(GenericAttribute):
 		index_entry_pos = 16 + index_header.get_first_index_entry()
 		while index_entry_pos < 16 + index_header.get_first_free_byte() and index_entry_pos < len(self.value):
 			index_entry_raw = self.value[index_entry_pos : ]
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry = IndexEntry(index_entry_raw)
 
 			index_entry_length = index_entry.get_length()
@@ -850,6 +853,9 @@ class IndexBuffer(object):
 		index_entry_pos = 24 + index_header.get_first_index_entry()
 		while index_entry_pos < 24 + index_header.get_first_free_byte() and index_entry_pos < len(self.index_buffer_raw):
 			index_entry_raw = self.index_buffer_raw[index_entry_pos : ]
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry = IndexEntry(index_entry_raw)
 
 			index_entry_length = index_entry.get_length()
-- 
2.43.0


From a51efb571857748155bb416d4f4e40686046f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:50 +0000
Subject: [PATCH 25/45] fix: skip index entries without a file name in the
 --mft mode

---
 ntfs_parser | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntfs_parser b/ntfs_parser
index 4e605ff..31bc82b 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -213,7 +213,7 @@ def process_mft(source_tag = None):
 			if attr_index_root is not None:
 				for index_entry in attr_index_root.index_entries():
 					attr_file_name_raw = index_entry.get_attribute()
-					if attr_file_name_raw is None:
+					if attr_file_name_raw is None or len(attr_file_name_raw) <= 66:
 						continue
 
 					attr_file_name = Attributes.FileName(attr_file_name_raw)
-- 
2.43.0


From c709142acdc16e019989e953142e4072cdf78cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:27 +0000
Subject: [PATCH 26/45] fix: do not stop the report at a truncated file name of
 a USN record

---
 ntfs_parser | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 31bc82b..15e38dd 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -308,7 +308,10 @@ def process_usn():
 
 		if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 			r_timestamp = format_timestamp(usn_record.get_timestamp())
-			fr_file_name = usn_record.get_file_name()
+			try:
+				fr_file_name = usn_record.get_file_name()
+			except ValueError: # A truncated file name.
+				fr_file_name = ''
 		else:
 			r_timestamp = ''
 			fr_file_name = ''
@@ -699,7 +702,10 @@ def process_log():
 
 						if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 							output_lines.append(' Timestamp: {}'.format(format_timestamp(usn_record.get_timestamp())))
-							output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+							try:
+								output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+							except ValueError: # A truncated file name.
+								pass
 
 						output_lines.append('')
 
-- 
2.43.0


From a3ca88953a5e3be38bfe37eb216aacf1440fb140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:18 +0000
Subject: [PATCH 27/45] fix: refuse a negative file record number

---
 dfir_ntfs/MFT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 6950763..b16aac2 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1021,6 +1021,9 @@ class MasterFileTableParser(object):
 		if base_file_record_segment_offset > self.file_size:
 			raise MasterFileTableException('Invalid offset (too large): {}'.format(base_file_record_segment_offset))
 
+		if base_file_record_segment_offset < 0:
+			raise MasterFileTableException('Invalid offset (negative): {}'.format(base_file_record_segment_offset))
+
 		self.file_object.seek(base_file_record_segment_offset)
 		buf = self.file_object.read(self.file_record_segment_size)
 
-- 
2.43.0


From 373192377546b90b43e5e2af9ba9db6887c29c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:18 +0000
Subject: [PATCH 28/45] fix: report malformed log records in the --log mode
 instead of stopping at them

---
 ntfs_parser | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 15e38dd..2f0b7bc 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -357,13 +357,18 @@ def process_log():
 		target_attribute_name = None
 		redo_op = log_record.get_redo_operation()
 		undo_op = log_record.get_undo_operation()
-		redo_data = log_record.get_redo_data()
-		undo_data = log_record.get_undo_data()
 
 		output_lines.append('LSN: {}'.format(log_record.lsn))
 		output_lines.append('Transaction ID: {}'.format(log_record.transaction_id))
 		output_lines.append('Log record, redo operation: {}, undo operation: {}'.format(LogFile.ResolveNTFSOperation(redo_op), LogFile.ResolveNTFSOperation(undo_op)))
 
+		try:
+			redo_data = log_record.get_redo_data()
+			undo_data = log_record.get_undo_data()
+		except LogFile.ClientException:
+			output_lines.append('Warning: invalid offset of redo or undo data')
+			return '\n'.join(output_lines)
+
 		target = log_record.calculate_mft_target_number()
 		if target is not None:
 			output_lines.append('Target (file number): {}'.format(target))
@@ -525,7 +530,7 @@ def process_log():
 
 				if value_offset > 0 and value_offset % 8 == 0 and value_length > 0:
 					attr_value_buf = attr_buf[value_offset : value_offset + value_length]
-					if len(attr_value_buf) == value_length:
+					if len(attr_value_buf) == value_length and value_length >= Attributes.AttributeMinimumLengths.get(type_code, 0):
 						if type_code == Attributes.ATTR_TYPE_STANDARD_INFORMATION:
 							attr_si = Attributes.StandardInformation(attr_value_buf)
 
@@ -611,11 +616,14 @@ def process_log():
 
 		if redo_op == LogFile.AddIndexEntryRoot or redo_op == LogFile.AddIndexEntryAllocation or redo_op == LogFile.WriteEndOfIndexBuffer or undo_op == LogFile.AddIndexEntryRoot or undo_op == LogFile.AddIndexEntryAllocation or undo_op == LogFile.WriteEndOfIndexBuffer:
 			if redo_op == LogFile.AddIndexEntryRoot or redo_op == LogFile.AddIndexEntryAllocation or redo_op == LogFile.WriteEndOfIndexBuffer:
-				index_entry = Attributes.IndexEntry(redo_data)
+				index_entry_raw = redo_data
 			else:
-				index_entry = Attributes.IndexEntry(undo_data)
+				index_entry_raw = undo_data
+
+			attr_value_buf = None
+			if len(index_entry_raw) >= 16:
+				attr_value_buf = Attributes.IndexEntry(index_entry_raw).get_attribute()
 
-			attr_value_buf = index_entry.get_attribute()
 			if attr_value_buf is not None and len(attr_value_buf) > 66:
 				attr_fn = Attributes.FileName(attr_value_buf)
 
-- 
2.43.0


From 548c36511de19ba31bb2179f7511aba21676d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:18 +0000
Subject: [PATCH 29/45] fix: use the parent recorded in an index entry in the
 --indx mode

---
 ntfs_parser | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 2f0b7bc..c5e2f97 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -780,7 +780,8 @@ def process_indx():
 						if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 							# This index entry points to a different parent for some reason.
 							try:
-								real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+								real_parent_mft_number, real_parent_sequence_number = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
+								real_parent_file_record = mft.get_file_record_by_number(real_parent_mft_number, real_parent_sequence_number)
 								parent_file_paths = mft.build_full_paths(real_parent_file_record)
 							except MFT.MasterFileTableException:
 								parent_file_path = None
@@ -829,7 +830,8 @@ def process_indx():
 					if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 						# This index entry points to a different parent for some reason.
 						try:
-							real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+							real_parent_mft_number, real_parent_sequence_number = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
+							real_parent_file_record = mft.get_file_record_by_number(real_parent_mft_number, real_parent_sequence_number)
 							parent_file_paths = mft.build_full_paths(real_parent_file_record)
 						except MFT.MasterFileTableException:
 							parent_file_path = None
-- 
2.43.0


From 528ee1180d7e5d70b8b24bbc3243de36a61442e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:24 +0000
Subject: [PATCH 30/45] fix: an unreadable shadow copy does not stop the report
 on other shadow copies

---
 ntfs_parser | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index c5e2f97..dd0b9fb 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -892,9 +892,12 @@ def process_all_mft():
 		pass
 	else:
 		for shadow_copy in vss.shadows():
-			vss.select_shadow(shadow_copy.store_guid)
-			input_file = MFT.FileSystemParser(vss, 0)
-			process_mft('shadow copy {}'.format(shadow_copy.stack_position))
+			try:
+				vss.select_shadow(shadow_copy.store_guid)
+				input_file = MFT.FileSystemParser(vss, 0)
+				process_mft('shadow copy {}'.format(shadow_copy.stack_position))
+			except (ShadowCopy.ShadowCopyException, BootSector.BootSectorException, MFT.MasterFileTableException, NotImplementedError) as e:
+				print('Cannot read the shadow copy {}: {}'.format(shadow_copy.stack_position, e), file = sys.stderr)
 
 def process_mem():
 	global input_file, csv_writer
-- 
2.43.0


From acb02ef7fb5c7b8131a4c71c062c2a3721ff1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 31/45] fix: a FAT boot sector without a sector or FAT size
 count is refused with a library error

---
 dfir_ntfs/addons/FAT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 8cd9314..a895ef9 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -131,6 +131,8 @@ def GetCountOfClusters(BSBPB):
 		totsec = BSBPB.get_bpb_totsec32()
 		if totsec == 0:
 			totsec = BSBPB.get_bs_totsec64()
+			if totsec is None:
+				raise BootSectorException('Invalid number of sectors')
 
 	if BSBPB.get_bpb_fatsz16() > 0:
 		RootDirSectors = (BSBPB.get_bpb_rootentcnt() * 32 + BSBPB.get_bpb_bytspersec() - 1) // BSBPB.get_bpb_bytspersec()
@@ -139,7 +141,11 @@ def GetCountOfClusters(BSBPB):
 
 		return CountofClusters
 
-	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * BSBPB.get_bpb_fatsz32())
+	fatsz32 = BSBPB.get_bpb_fatsz32()
+	if fatsz32 is None:
+		raise BootSectorException('Invalid number of FAT sectors')
+
+	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * fatsz32)
 	CountofClusters = DataSec // BSBPB.get_bpb_secperclus()
 
 	return CountofClusters
-- 
2.43.0


From 819878fe98c5ac3df1e3c3b072902694008b2b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 32/45] fix: an absurd $MFT location in a boot sector is
 refused with a library error

---
 dfir_ntfs/MFT.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index b16aac2..8203b03 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1540,7 +1540,11 @@ class FileSystemParser(FragmentedFile):
 		frs_size = self.boot.get_file_record_segment_size()
 		first_frs_offset = self.boot.get_first_mft_cluster() * self.cluster_size
 
-		self.volume_object.seek(self.volume_offset + first_frs_offset)
+		try:
+			self.volume_object.seek(self.volume_offset + first_frs_offset)
+		except OverflowError:
+			raise MasterFileTableException('Invalid first cluster of the $MFT file')
+
 		first_frs_buf = self.volume_object.read(frs_size)
 		first_frs = FileRecordSegment(first_frs_buf, suggested_mft_number = 0)
 
-- 
2.43.0


From a2a7a807e5676f0384e8c66dfd3e6565a993f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 33/45] fix: a resident index allocation attribute is refused
 with a library error

---
 dfir_ntfs/MFT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 8203b03..26d5d28 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -513,6 +513,9 @@ class AttributeRecordResident(object):
 
 		if self.type_code in Attributes.AttributeTypes.keys():
 			# A known attribute.
+			if self.type_code == Attributes.ATTR_TYPE_INDEX_ALLOCATION: # This attribute is always nonresident.
+				raise AttributeException('Unexpected resident attribute, type: {}'.format(self.type_str()))
+
 			if len(self.value) < Attributes.AttributeMinimumLengths.get(self.type_code, 0):
 				raise AttributeException('Truncated attribute value, type: {}, length: {}'.format(self.type_str(), len(self.value)))
 
-- 
2.43.0


From 7c3ab871d443c9a8c755ea1e88059d96ea508904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 34/45] fix: no subnode VCN is returned for a truncated index
 entry

---
 dfir_ntfs/Attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index fbef978..5ce0b73 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -723,6 +723,9 @@ class IndexEntry(object):
 		entry_length = self.get_length()
 		if self.get_flags() & INDEX_ENTRY_NODE > 0 and entry_length - 8 > 0:
 			vcn_raw = self.index_entry_raw[entry_length - 8 : entry_length]
+			if len(vcn_raw) != 8: # This index entry is truncated.
+				return
+
 			return struct.unpack('<Q', vcn_raw)[0]
 
 class IndexRoot(GenericAttribute):
-- 
2.43.0


From 1326827ddcc6ed0d29d0c243ac1688fb31b9497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 35/45] fix: loops in chains of shadow copy blocks are detected

---
 dfir_ntfs/ShadowCopy.py | 55 ++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 171f18b..db30681 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -702,7 +702,10 @@ class ShadowParser(object):
 		self.control_blocks = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -819,7 +822,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -850,7 +856,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -871,7 +880,10 @@ class ShadowParser(object):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			location_description_block_buf = self.volume_object.read(0x4000)
 
@@ -910,7 +922,10 @@ class ShadowParser(object):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			diff_area_block_buf = self.volume_object.read(0x4000)
 
@@ -1315,7 +1330,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		self.control_blocks_storage = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -1328,7 +1346,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 			curr_offset = control_block.get_next_control_block_volume_offset()
 
 		curr_offset = self.start_block_storage.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			control_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1432,7 +1453,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1463,7 +1487,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1484,7 +1511,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			location_description_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1523,7 +1553,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Stop when there is a loop.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			diff_area_block_buf = self.volume_storage_object.read(0x4000)
 
-- 
2.43.0


From 456a4a9cc39362142e606cee738bc493897e43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 36/45] fix: an absurd file record size in a boot sector does
 not cause a huge read

---
 dfir_ntfs/MFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 26d5d28..15200d5 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1548,7 +1548,7 @@ class FileSystemParser(FragmentedFile):
 		except OverflowError:
 			raise MasterFileTableException('Invalid first cluster of the $MFT file')
 
-		first_frs_buf = self.volume_object.read(frs_size)
+		first_frs_buf = self.volume_object.read(min(frs_size, max(FILE_RECORD_SEGMENT_SIZES_SUPPORTED)))
 		first_frs = FileRecordSegment(first_frs_buf, suggested_mft_number = 0)
 
 		# Check if an attribute list is present.
-- 
2.43.0


From 5d6fc2de2d7f3c26f93f67dfe9db7b8e5fd541dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 37/45] fix: a truncated client record is refused with a
 library error

---
 dfir_ntfs/LogFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index d9997bd..68b0b15 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -418,6 +418,8 @@ class ClientRecord(object):
 
 	def __init__(self, client_record_raw):
 		self.buf = client_record_raw
+		if len(self.buf) < 32:
+			raise ClientRecordException('Invalid (truncated) client record length: {}'.format(len(self.buf)))
 
 		client_name_length = self.get_client_name_length()
 		if client_name_length > 128: # Do not cross the 'sizeof' boundary.
-- 
2.43.0


From 99bb51fe41f43069977e999ed3f250eb9bf9ddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:37 +0000
Subject: [PATCH 38/45] fix: an unusable attribute of a file record does not
 hide its other attributes

---
 dfir_ntfs/MFT.py | 12 ++++++++++++
 ntfs_parser      | 10 ++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 15200d5..2f1087f 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -984,6 +984,9 @@ class MasterFileTableParser(object):
 			if type(attr) is AttributeRecordNonresident:
 				continue
 
+			if attr.type_code != Attributes.ATTR_TYPE_VOLUME_INFORMATION:
+				continue
+
 			attr_decoded = attr.value_decoded()
 			if type(attr_decoded) is Attributes.VolumeInformation:
 				found_volume_info = True
@@ -1095,6 +1098,9 @@ class MasterFileTableParser(object):
 				if type(attr) is AttributeRecordNonresident:
 					continue
 
+				if attr.type_code != Attributes.ATTR_TYPE_FILE_NAME:
+					continue
+
 				attr_value = attr.value_decoded()
 				if type(attr_value) is not Attributes.FileName:
 					continue
@@ -1194,6 +1200,9 @@ class MasterFileTableParser(object):
 				if type(attr) is AttributeRecordNonresident:
 					continue
 
+				if attr.type_code != Attributes.ATTR_TYPE_FILE_NAME:
+					continue
+
 				attr_value = attr.value_decoded()
 				if type(attr_value) is not Attributes.FileName:
 					continue
@@ -1218,6 +1227,9 @@ class MasterFileTableParser(object):
 			if type(attr) is AttributeRecordNonresident:
 				continue
 
+			if attr.type_code != Attributes.ATTR_TYPE_FILE_NAME:
+				continue
+
 			attr_value = attr.value_decoded()
 			if type(attr_value) is not Attributes.FileName:
 				continue
diff --git a/ntfs_parser b/ntfs_parser
index dd0b9fb..1a27795 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -106,7 +106,10 @@ def process_mft(source_tag = None):
 
 		for attribute in file_record.attributes():
 			if type(attribute) is MFT.AttributeRecordResident:
-				attribute_value = attribute.value_decoded()
+				try:
+					attribute_value = attribute.value_decoded()
+				except MFT.AttributeException:
+					continue
 
 				if type(attribute_value) is Attributes.StandardInformation:
 					if attr_standard_information is None:
@@ -203,7 +206,10 @@ def process_mft(source_tag = None):
 		if file_record.get_flags() & MFT.FILE_FILE_NAME_INDEX_PRESENT > 0:
 			for attribute in file_record.attributes():
 				if type(attribute) is MFT.AttributeRecordResident:
-					attribute_value = attribute.value_decoded()
+					try:
+						attribute_value = attribute.value_decoded()
+					except MFT.AttributeException:
+						continue
 
 					if type(attribute_value) is Attributes.IndexRoot:
 						if attribute_value.get_indexed_attribute_type_code() == Attributes.ATTR_TYPE_FILE_NAME:
-- 
2.43.0


From 0cad16dfc27c97c5540a619562bdc861cb624d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:24 +0000
Subject: [PATCH 39/45] fix: an absurd length of an attribute list does not
 cause a huge read

---
 dfir_ntfs/MFT.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 2f1087f..b6d9b23 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -583,12 +583,16 @@ class AttributeRecordNonresident(object):
 					raise MasterFileTableException('Unexpected sparse data range')
 
 				volume_object.seek(volume_offset + curr_offset * cluster_size)
-				data = volume_object.read(curr_length * cluster_size)
 
-				if len(data) != curr_length * cluster_size:
-					raise MasterFileTableException('Truncated data read from a volume')
+				i = 0
+				while i < curr_length: # An invalid length must not result in a single huge read.
+					data = volume_object.read(cluster_size)
+
+					if len(data) != cluster_size:
+						raise MasterFileTableException('Truncated data read from a volume')
 
-				value += data
+					value += data
+					i += 1
 
 			value = value[ : self.file_size]
 			return Attributes.AttributeList(value)
-- 
2.43.0


From 5602ffcb98c540dfc2eab8d74c1e9d91eee2361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:25 +0000
Subject: [PATCH 40/45] fix: an absurd number of GPT entries does not cause a
 huge read

---
 dfir_ntfs/PartitionTable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/PartitionTable.py b/dfir_ntfs/PartitionTable.py
index d0c8ab9..049be8a 100644
--- a/dfir_ntfs/PartitionTable.py
+++ b/dfir_ntfs/PartitionTable.py
@@ -131,6 +131,9 @@ class GPT(object):
 		if size_of_partition_entry < 128 or size_of_partition_entry % 128 != 0:
 			raise ValueError('Invalid partition entry size: {}'.format(size_of_partition_entry))
 
+		if partition_entry_lba * self.sector_size + number_of_partition_entries * size_of_partition_entry > self.volume_size:
+			raise ValueError('Invalid number of partition entries: {}'.format(number_of_partition_entries))
+
 		disk_guid = uuid.UUID(bytes_le = disk_guid_raw)
 
 		# Read and validate the partition entry array (but do not use it).
@@ -177,6 +180,9 @@ class GPT(object):
 		if size_of_partition_entry < 128 or size_of_partition_entry % 128 != 0:
 			raise ValueError('Invalid partition entry size: {}'.format(size_of_partition_entry))
 
+		if partition_entry_lba * self.sector_size + number_of_partition_entries * size_of_partition_entry > self.volume_size:
+			raise ValueError('Invalid number of partition entries: {}'.format(number_of_partition_entries))
+
 		if self.volume_object.seek(partition_entry_lba * self.sector_size) != partition_entry_lba * self.sector_size:
 			raise ValueError('Cannot seek to the GPT partition entry array')
 
-- 
2.43.0


From 240d31bb26c34ee862c123a5c78eef32f5c4ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:20 +0000
Subject: [PATCH 41/45] fix: a truncated exFAT boot region is refused with a
 library error

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 3bce7e6..f56af31 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -497,7 +497,7 @@ class BR(object):
 		checksum_2 = self.br_buf[offset + 4 : offset + 8]
 		checksum_3 = self.br_buf[offset + 8 : offset + 12]
 
-		if checksum_1 != checksum_2 or checksum_1 != checksum_3:
+		if len(checksum_1) != 4 or checksum_1 != checksum_2 or checksum_1 != checksum_3:
 			raise BootRegionException('Invalid checksums in the boot region')
 
 		return struct.unpack('<L', checksum_1)[0]
-- 
2.43.0


From 08f134f10b9aba866ffef1312e2724d9b59bdeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:20 +0000
Subject: [PATCH 42/45] fix: a cluster outside of a truncated exFAT allocation
 bitmap has no known state

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index f56af31..325e8bd 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1041,6 +1041,9 @@ class Bitmap(object):
 		byte_pos = cluster // 8
 		bit_pos = cluster % 8
 
+		if byte_pos >= len(self.bitmap_buf): # The allocation bitmap is truncated.
+			return
+
 		is_allocated = (self.bitmap_buf[byte_pos] >> bit_pos) & 1 > 0
 		return is_allocated
 
-- 
2.43.0


From 1499a0216f6e68c510ce418d5732dd938d0b13ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:37 +0000
Subject: [PATCH 43/45] fix: do not read a mix of two shadow copies after a
 failed selection

---
 dfir_ntfs/ShadowCopy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index db30681..06bf275 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -769,6 +769,8 @@ class ShadowParser(object):
 		elif cnt > 1:
 			raise ShadowCopyException('Cannot select a shadow copy (more than one found)')
 
+		self.shadow_selected = False # If something is wrong with the metadata, do not use it along with the metadata of another shadow copy.
+
 		# Read the metadata for the shadow copy selected.
 		self.current_volume_size = self.current_cbi2.get_volume_size()
 		self.current_bitmap = self.read_bitmap()
@@ -1400,6 +1402,8 @@ class ShadowParserTwoVolumes(ShadowParser):
 		elif cnt > 1:
 			raise ShadowCopyException('Cannot select a shadow copy (more than one found)')
 
+		self.shadow_selected = False # If something is wrong with the metadata, do not use it along with the metadata of another shadow copy.
+
 		# Read the metadata for the shadow copy selected.
 		self.current_volume_size = self.current_cbi2.get_volume_size()
 		self.current_bitmap = self.read_bitmap()
-- 
2.43.0


From 04287ea59db14322d9b9554a965c8119eb886f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:54 +0000
Subject: [PATCH 44/45] fix: do not keep the applied log record pages after a
 failed or abandoned parsing of the log

---
 dfir_ntfs/LogFile.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 68b0b15..07d6945 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1305,6 +1305,16 @@ class LogFileParser(object):
 		If 'recover_log_data' is True, apply a tail log record page or fast log record pages before parsing the log data.
 		"""
 
+		try:
+			for client_data_decoded in self.parse_ntfs_records_internal(recover_log_data):
+				yield client_data_decoded
+		finally: # Even if something is wrong with the log data, do not keep the log record pages applied.
+			if recover_log_data:
+				self.discard_changes()
+
+	def parse_ntfs_records_internal(self, recover_log_data):
+		"""This method is the same as above, but it does not discard changes made to the log data. This method is used internally."""
+
 		if recover_log_data:
 			self.prepare_for_writes()
 
@@ -1373,9 +1383,6 @@ class LogFileParser(object):
 
 					yield client_data_decoded
 
-		if recover_log_data:
-			self.discard_changes()
-
 	def __str__(self):
 		return 'LogFileParser, file size: {}'.format(self.file_size)
 
-- 
2.43.0


From 3718944e29c2c8867dbe2d17e6e3e28b6ebfe347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:23 +0000
Subject: [PATCH 45/45] fix: guess the layout of file control blocks from
 scratch each time

The offsets guessed by one call of carve_fcb_timestamps() were used by the
first pass of the next one, so the same image could be refused the second time.
---
 dfir_ntfs/MFT.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index b6d9b23..1bd9584 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1662,7 +1662,7 @@ class MetadataCarver(object):
 	def carve_fcb_timestamps(self):
 		"""Locate and yield additional metadata items (FCBTimestamps) from every file control block (FCB) found in a raw image."""
 
-		def carve_fcb_timestamps_internal():
+		def carve_fcb_timestamps_internal(guessed_pos_duplicated_information, guessed_pos_atime_real):
 			# Process every memory page (4096 bytes) in the loop below.
 			file_pos = 0
 			while file_pos < self.file_size:
@@ -1687,7 +1687,7 @@ class MetadataCarver(object):
 
 					# In a given candidate file control block, scan for additional metadata.
 
-					if self.guessed_pos_duplicated_information is None: # The location of duplicated information is unknown.
+					if guessed_pos_duplicated_information is None: # The location of duplicated information is unknown.
 						pos = 0
 						while pos < len(page) and pos < 144: # Search for four valid FILETIME timestamps in some reasonable amount of data.
 							buf_cur = page[fcb_pos + pos : fcb_pos + pos + 32]
@@ -1710,7 +1710,7 @@ class MetadataCarver(object):
 							pos += 2
 
 					else: # Try the known location.
-						buf_cur = page[fcb_pos + self.guessed_pos_duplicated_information : fcb_pos + self.guessed_pos_duplicated_information + 32]
+						buf_cur = page[fcb_pos + guessed_pos_duplicated_information : fcb_pos + guessed_pos_duplicated_information + 32]
 						if len(buf_cur) != 32: # Truncated data.
 							break
 
@@ -1724,7 +1724,7 @@ class MetadataCarver(object):
 
 						if found:
 							found_duplicated_information = True
-							relative_pos_duplicated_information = self.guessed_pos_duplicated_information
+							relative_pos_duplicated_information = guessed_pos_duplicated_information
 
 					if found_duplicated_information:
 						ctime, mtime, etime, atime = duplicated_information_timestamps
@@ -1737,7 +1737,7 @@ class MetadataCarver(object):
 
 						# Now, let's find the "real" (in-memory) last access timestamp.
 
-						if self.guessed_pos_atime_real is None: # The location of that timestamp is unknown.
+						if guessed_pos_atime_real is None: # The location of that timestamp is unknown.
 							pos += 56 # Skip the duplicated information fields.
 
 							while pos < len(page) and pos < 208: # Scan some reasonable amount of data.
@@ -1755,12 +1755,12 @@ class MetadataCarver(object):
 								pos += 2
 
 						else: # Try the known location.
-							buf_cur = page[fcb_pos + self.guessed_pos_atime_real : fcb_pos + self.guessed_pos_atime_real + 8]
+							buf_cur = page[fcb_pos + guessed_pos_atime_real : fcb_pos + guessed_pos_atime_real + 8]
 							if len(buf_cur) == 8:
 								atime_real = struct.unpack('<Q', buf_cur)[0]
 								if atime_real >= self.filetime_min and atime_real <= self.filetime_max:
 									found_atime_real = True
-									relative_pos_atime_real = self.guessed_pos_atime_real
+									relative_pos_atime_real = guessed_pos_atime_real
 									atime_real = Attributes.DecodeFiletime(atime_real) # Decode the timestamp.
 
 					if found_duplicated_information and found_atime_real:
@@ -1783,7 +1783,7 @@ class MetadataCarver(object):
 		pos_dict_a = {}
 		c = 0
 
-		for fcb_timestamps in carve_fcb_timestamps_internal():
+		for fcb_timestamps in carve_fcb_timestamps_internal(None, None): # The offsets are always guessed from scratch.
 			__, pos_dup, pos_a = fcb_timestamps.positions
 
 			if pos_dup in pos_dict_dup.keys():
@@ -1809,7 +1809,7 @@ class MetadataCarver(object):
 		if pos_dict_dup[self.guessed_pos_duplicated_information] < 20 or pos_dict_a[self.guessed_pos_atime_real] < 20:
 			raise ValueError('Cannot guess the offsets in the file control block structure (inconclusive data)')
 
-		for fcb_timestamps in carve_fcb_timestamps_internal():
+		for fcb_timestamps in carve_fcb_timestamps_internal(self.guessed_pos_duplicated_information, self.guessed_pos_atime_real):
 			yield fcb_timestamps
 
 	def __str__(self):
-- 
2.43.0

