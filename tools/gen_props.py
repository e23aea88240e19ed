#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Reads of a fragmented NTFS stream are byte-exact",
 "For any list of data runs (sparse runs included), stream size and sequence of seeks, tells and reads, the file-like view of a nonresident NTFS stream returns exactly the bytes of the logically contiguous stream: runs in order, sparse ranges as zero bytes, nothing past the end of the stream. The position always advances by exactly the number of bytes returned and obeys all three seek modes.",
 ["inputs", "histories"], "every run list, cluster size, volume offset, stream size and every history of seek/tell/read calls",
 "The tests read a handful of fixed images mostly from start to end; run boundaries, sparse runs, partial tails and interleaved seeks cannot be enumerated.",
 ["dfir_ntfs/MFT.py"], [("FragmentedFile", "dfir_ntfs/MFT.py: class FragmentedFile"), ("FileSystemParser reads", "dfir_ntfs/MFT.py: class FileSystemParser")],
 ["FragmentedFile.read/seek/tell"])
prop("C02", "Run-list encodings decode to exactly the encoded runs",
 "Decoding the stored run list of a nonresident attribute yields exactly the (first cluster, cluster count) runs it encodes, for any number of runs, field widths, signed relative offsets, sparse runs and for attributes split over several records. A malformed run list (oversized fields, truncated or negative values) is refused with the library's own error and never decoded as something else.",
 ["inputs"], "every byte string that can be stored as a run list, and every split of an attribute over records",
 "A pickled sample of run lists is compared; signed widths, sparse/real alternation, multi-record splits and malformed encodings are an unbounded space.",
 ["dfir_ntfs/MFT.py"], [("DecodeMappingPairs / MappingPairs", "dfir_ntfs/MFT.py"), ("data_runs() of a nonresident attribute record", "dfir_ntfs/MFT.py")],
 ["AttributeRecordNonresident.data_runs, FileRecord.get_data_runs"])
prop("C03", "Torn multi-sector structures are never taken for intact ones",
 "A file record, index buffer or log page whose protected sectors carry the right update-sequence stamps is returned with every original byte restored, and one in which a used sector carries a different stamp (a torn or partial write) or whose update-sequence array is malformed is rejected with the library's own error. The only tolerated mismatch in a file record is in sectors lying wholly beyond its used area.",
 ["inputs", "fault_sequences"], "every record size and content, every stamp value and every subset of torn sectors",
 "Tests contain intact structures and one or two tolerated ones; which sector is torn, and with which value, is a product space they do not sample.",
 ["dfir_ntfs/MFT.py", "dfir_ntfs/Attributes.py", "dfir_ntfs/LogFile.py"],
 [("update sequence array handling in FileRecordSegment", "dfir_ntfs/MFT.py"), ("IndexBuffer", "dfir_ntfs/Attributes.py"), ("log page / restart page fixups", "dfir_ntfs/LogFile.py")],
 ["constructors"])
prop("C04", "Every recoverable file record is reported once, whatever its neighbours",
 "Enumerating a master file table yields each base record exactly once with its own number, sequence number, flags and complete attribute set (its own attributes followed by those of all its extension records wherever they are stored), and looking a record up by number agrees with the enumeration and with the expected sequence number. A damaged, empty or foreign record affects only itself, never the records around it.",
 ["inputs", "fault_sequences"], "every table layout, record size, placement of extension records, deletion history and damaged subset",
 "Tests use a few images with few extension records and almost no damage; placement and damage patterns are combinatorial.",
 ["dfir_ntfs/MFT.py"], [("MasterFileTableParser.file_records / get_file_record_by_number", "dfir_ntfs/MFT.py"), ("FileRecord.attributes", "dfir_ntfs/MFT.py")],
 ["file_records, get_file_record_by_number, attributes"])
prop("C05", "Full paths and path lookups agree with the directory tree",
 "For every file record the reported full paths are exactly one per stored name (each hard link, and a short name that is kept separately), each the chain of its parents up to the root; a parent that is missing or was reused is shown with the orphan marker and a cyclic parentage ends in finite time. Looking up a path of an allocated file returns that file's record, and a path that no allocated file has returns nothing.",
 ["inputs"], "every directory tree, including hard links, short names, deleted, reused and cyclic parents",
 "Tests compare paths in a few images; reuse, cycles, hard links and sequence mismatches combine without bound.",
 ["dfir_ntfs/MFT.py"], [("MasterFileTableParser.build_full_paths", "dfir_ntfs/MFT.py"), ("get_file_record_by_path", "dfir_ntfs/MFT.py")],
 ["build_full_paths, get_file_record_by_path"])
prop("C06", "Decoded attribute values report exactly what is stored",
 "For every supported attribute (standard information, file name, attribute list, object id, volume name and information, extended attributes and their information, reparse points, and the Linux-subsystem records kept in extended attributes) each reported field equals the stored field, including the optional trailing parts, which are reported as absent when the stored value is too short to hold them. Enumerations inside a value (list entries, extended attributes, name/value pairs) report every stored entry once and in order.",
 ["inputs"], "every attribute value: all field values, optional parts, names and entry counts",
 "Tests decode one or two sample values per attribute type, so a wrong width, sign, offset or loop bound that the samples do not reach stays invisible.",
 ["dfir_ntfs/Attributes.py", "dfir_ntfs/WSL.py", "dfir_ntfs/MFT.py"], [("attribute value classes", "dfir_ntfs/Attributes.py"), ("LXATTRB / LXXATTR", "dfir_ntfs/WSL.py"), ("value_decoded", "dfir_ntfs/MFT.py")],
 ["getters of attribute value classes"])
prop("C07", "Directory indexes report every entry exactly once",
 "Walking a directory index (its root and all of its allocated buffers, read through any run list) yields every stored entry exactly once and in stored order, with its file reference, key and child pointer, and stops at the end marker. Buffers other than the first (which fixes the buffer size) that are unallocated, damaged or foreign are skipped without losing the entries of the other buffers.",
 ["inputs", "fault_sequences"], "every index content, number and size of buffers, placement on the volume, and every subset of damaged buffers",
 "Two images with small indexes are tested; entry counts, sizes, buffer sizes below a cluster and damage patterns are not.",
 ["dfir_ntfs/Attributes.py", "dfir_ntfs/MFT.py"], [("IndexRoot, IndexBuffer, IndexAllocation, IndexEntry", "dfir_ntfs/Attributes.py")],
 ["index_entries, index_buffers"])
prop("C08", "Names left in slack space are recovered faithfully",
 "Every complete file name attribute lying in the unused tail of a file record or index buffer is recovered with its stored fields, whatever precedes or follows it, and nothing that lies in the used part is reported as slack. A partly overwritten name in front of them is reported, on request, as its recognizable rest of at least five printable characters. Slack handed out is exactly the unused bytes.",
 ["inputs"], "every position, number and content of residual file names in slack and every used size",
 "Three sample tables are tested; alignment, adjacency to the used area and to sector tails vary without bound.",
 ["dfir_ntfs/MFT.py", "dfir_ntfs/Attributes.py"], [("FileRecord.slack, SlackSpace.carve", "dfir_ntfs/MFT.py"), ("get_slack", "dfir_ntfs/Attributes.py")],
 ["slack, carve"])
prop("C09", "Change-journal records are recovered exactly once and in order",
 "Parsing a change journal yields every valid record of versions 2, 3 and 4 exactly once, in file order, with all fields as stored, regardless of sparse or zeroed regions, garbage and invalid records between them, and of where records fall relative to page boundaries. No record is invented from bytes that are not a valid record.",
 ["inputs", "fault_sequences"], "every arrangement of records, gaps, page positions and damage",
 "One sample journal is tested; gaps, record lengths and alignments relative to read boundaries are unbounded.",
 ["dfir_ntfs/USN.py"], [("ChangeJournalParser.usn_records", "dfir_ntfs/USN.py"), ("GetUsnRecord and record classes", "dfir_ntfs/USN.py")],
 ["usn_records, GetUsnRecord"])
prop("C10", "Every surviving journal ($LogFile) record is recovered once, in order",
 "For any circular log (both on-disk format generations, any size, including after wrap-around), parsing yields every surviving record that a restart page, a page header, a neighbouring record, a transaction link or a checkpoint leads to, exactly once, per client in increasing log sequence order, with header fields and data as written, including records that span pages. Newer page copies kept in the spare area (tail copies or fast pages) supersede the pages they belong to, older copies never do; damaged, torn or not yet written pages and malformed records lose only the records stored on them (and those only they lead to), and never lend foreign data to another record.",
 ["inputs", "histories", "crash_points"], "every history of log writes, wrap-arounds, page flush states and lost pages at the moment the log was captured",
 "Four captured logs are tested; wrap position, record sizes against page boundaries, spare-page state and page loss form an unbounded space.",
 ["dfir_ntfs/LogFile.py"], [("LogFileParser.parse_ntfs_records, collect_lsns", "dfir_ntfs/LogFile.py"), ("tail and fast page application", "dfir_ntfs/LogFile.py"), ("LSN arithmetic", "dfir_ntfs/LogFile.py")],
 ["parse_ntfs_records"])
prop("C11", "Journal operations are attributed to the right file and offset",
 "For every journal record, the reported target (file record number, or file reference and attribute name), offset within the target, cluster list and redo/undo data are those that the record, the latest attribute-opening record for its slot and, failing that, the latest complete pair of checkpoint tables before it determine. A record whose target cannot be known from them is reported as unknown rather than attributed to another file.",
 ["inputs", "histories"], "every history of opening, naming, dumping and reusing open-attribute entries interleaved with updates",
 "Sample logs contain few table dumps and reuses; the order of opens, closes and dumps is a history quantifier.",
 ["dfir_ntfs/LogFile.py"], [("open attribute table tracking, NTFSLogRecord", "dfir_ntfs/LogFile.py")],
 ["calculate_mft_target_number, calculate_mft_target_reference_and_name, calculate_offset_in_target, get_lcns_for_page"])
prop("C12", "A mounted shadow copy equals the volume at snapshot time",
 "For any history of snapshots and later overwrites recorded on a volume, or on a separate storage volume, the listed shadow copies carry the right identifiers, times and stack positions, and reading any range of a selected shadow copy returns exactly the volume's bytes as of that snapshot. Seek, tell and read behave as on an ordinary file of the snapshot's size, and the mounted file system shows the same size and bytes.",
 ["inputs", "histories"], "every history of snapshots, copy-on-write, forwarded, overlaid and ignored blocks, and every read range",
 "Tests compare a few prepared volumes at a few offsets; the block kinds and their interaction across stacked snapshots are combinatorial.",
 ["dfir_ntfs/ShadowCopy.py"], [("ShadowParser, ShadowParserTwoVolumes", "dfir_ntfs/ShadowCopy.py"), ("block lists, bitmaps, forwarders, overlays", "dfir_ntfs/ShadowCopy.py")],
 ["shadows, select_shadow, read/seek/tell"])
prop("C13", "Partition tables decode to exactly the stored partitions",
 "Every used primary, logical or GPT partition is reported exactly once, in table order, with its stored start, size, type, identifiers, name and attributes for either sector size, and no unused or out-of-table entry is reported. A GPT whose header or entry array fails its checksum is replaced by the intact backup copy or refused, and chains of extended boot records that loop end in finite time.",
 ["inputs", "fault_sequences"], "every table content, sector size, extended chain and corrupted region",
 "A dozen fixed tables are tested; chains, checksums and entry geometry vary without bound.",
 ["dfir_ntfs/PartitionTable.py"], [("PartitionTable, GPT and MBR/EBR parsing", "dfir_ntfs/PartitionTable.py")],
 ["parser constructors and partition lists"])
prop("C14", "Walking a FAT volume reports every entry and its exact content",
 "On any FAT12, FAT16 or FAT32 volume the walk reports every allocated file and directory exactly once under its full path with its stored size, attributes and first cluster, and reading an entry's cluster chain returns exactly its stored bytes for any fragmentation. Deleted entries are reported as deleted, and deleted directories are descended into only where their clusters have not been reused (or everywhere, when a scan of reallocated ones is asked for).",
 ["inputs", "histories"], "every volume geometry, tree, fragmentation and deletion history",
 "A few prepared images are walked; packing of 12-bit entries, cluster sizes, chains crossing sectors and deletion histories are unbounded.",
 ["dfir_ntfs/addons/FAT.py"], [("FileSystemParser.walk, read_chain", "dfir_ntfs/addons/FAT.py"), ("FAT.get_element, chain", "dfir_ntfs/addons/FAT.py"), ("type detection", "dfir_ntfs/addons/FAT.py")],
 ["walk, read_chain, chain"])
prop("C15", "FAT directory entries decode to the stored names and metadata",
 "Every short entry is reported once with its stored name, size, cluster, flags and timestamps; a run of long-name entries is attached to the short entry it belongs to (checksum and order agreeing) and to no other, and otherwise a properly begun run is reported as a partial orphan name. Deleted entries keep their recoverable long name, and entries after the end-of-directory mark are never reported as surely allocated.",
 ["inputs", "fault_sequences"], "every sequence of 32-byte entries: valid, deleted, orphaned, reordered, truncated",
 "Tests decode about ten directory samples; names, orders, checksums and damage combine without bound.",
 ["dfir_ntfs/addons/FAT.py"], [("DirectoryEntries.entries, BuildLongName, short-name checksum", "dfir_ntfs/addons/FAT.py")],
 ["DirectoryEntries.entries"])
prop("C16", "Walking an exFAT volume reports every entry and its exact content",
 "On any exFAT volume the walk reports every allocated file and directory exactly once under its full path with its stored metadata, reading an entry returns exactly its stored bytes whether it is chained through the allocation table or stored contiguously, and the allocation state of each cluster is as stored. Deleted entry sets are reported as deleted with their names, and deleted directories are descended into only where their clusters have not been reused (or everywhere, when a scan of reallocated ones is asked for).",
 ["inputs", "histories"], "every volume geometry, tree, fragmentation, contiguous/chained mix and deletion history",
 "A few prepared images are walked.",
 ["dfir_ntfs/addons/exFAT.py"], [("FileSystemParser.walk, read_chain", "dfir_ntfs/addons/exFAT.py"), ("DirectoryEntries.entries", "dfir_ntfs/addons/exFAT.py"), ("Bitmap", "dfir_ntfs/addons/exFAT.py")],
 ["walk, read_chain, is_allocated"])
prop("C17", "exFAT structures that fail their checksum are not trusted",
 "An allocated entry set is reported only if its checksum and structure are valid, and rejecting one never hides the sets that follow it; names left without a valid set are reported only as partial orphan names. A boot region that fails its checksum or bounds is never used: the backup region is used instead (512- and 4096-byte sectors), and if none is valid the volume is refused.",
 ["inputs", "fault_sequences"], "every corruption of any bytes of entry sets and boot regions",
 "Tests check a handful of corruptions; which byte is damaged is an exhaustive quantifier.",
 ["dfir_ntfs/addons/exFAT.py"], [("EntrySetChecksum, DirectoryEntries.entries", "dfir_ntfs/addons/exFAT.py"), ("BR.validate, backup selection", "dfir_ntfs/addons/exFAT.py")],
 ["entries, FileSystemParser constructor"])
prop("C18", "Evidence is never modified",
 "No parser, file-like view or command-line tool ever writes to, truncates, renames or deletes an input image or file, nor opens it for writing: the only file written is the named output. The mounted shadow-copy file system refuses every modifying operation and every open for writing.",
 ["inputs", "histories"], "every input, mode and sequence of API calls",
 "Tests never look at the mode files are opened with nor compare inputs afterwards.",
 ["ntfs_parser", "fat_parser", "vsc_mount", "dfir_ntfs/LogFile.py", "dfir_ntfs/MFT.py", "dfir_ntfs/ShadowCopy.py"], [("open modes and read-only file objects", "all modules"), ("EROFS in file system operations", "vsc_mount")],
 ["open(), system calls, file object methods"])
prop("C19", "Hostile input ends in bounded time with a library error at worst",
 "For any bytes presented as any supported structure, parsing finishes after an amount of work bounded by the size of the input (cyclic cluster chains, directory, parent, record and block references included). Refusals are the library's own or value/not-supported errors (or the file object's refusal of an impossible position); parsing never crashes with an internal error such as an index, key, type or unpacking failure.",
 ["inputs", "fault_sequences"], "every corrupted or hostile image of every supported format",
 "Tests contain well-formed samples and two loop images; mutations are an unbounded space.",
 ["dfir_ntfs/MFT.py", "dfir_ntfs/Attributes.py", "dfir_ntfs/USN.py", "dfir_ntfs/LogFile.py", "dfir_ntfs/ShadowCopy.py", "dfir_ntfs/PartitionTable.py", "dfir_ntfs/addons/FAT.py", "dfir_ntfs/addons/exFAT.py"],
 [("loop tracking", "chain(), walk(), build_full_paths(), extended boot records"), ("validation before use", "all parsers")],
 ["all parsers"])
prop("C20", "Timestamps are decoded to the right instant",
 "Every stored time value (NTFS 100-nanosecond counts, version-1 GUID times, FAT and exFAT dates with their 10-millisecond parts and time zones, Linux-subsystem times) is reported as the instant it denotes to the microsecond (up to double-precision rounding for present-day dates), in UTC where the format defines it, and values that denote no representable instant are reported as absent rather than as another time. Decoding preserves order.",
 ["inputs"], "every 64-bit (16/32-bit for FAT) stored time value",
 "Tests decode a few dozen values.",
 ["dfir_ntfs/Attributes.py", "dfir_ntfs/WSL.py", "dfir_ntfs/addons/FAT.py", "dfir_ntfs/addons/exFAT.py", "dfir_ntfs/MoveTable.py"], [("DecodeFiletime, DecodeGUIDTime, DecodeFATTimestamp", "decoders")],
 ["timestamp decoders and getters"])
prop("C21", "Command-line reports contain every item, once, with the right fields",
 "For any input, each command-line mode exits successfully and its output contains exactly one row (or block) per item the input holds (per file name, index entry, slack name, journal record, directory entry, tracking entry), in input order, with every column equal to the stored value, for the main volume and each shadow copy. A damaged item never removes the rows of other items.",
 ["inputs", "fault_sequences"], "every input image and every tool mode",
 "The tests never run the command-line tools.",
 ["ntfs_parser", "fat_parser"], [("process_* functions", "ntfs_parser"), ("main program", "fat_parser")],
 ["output files, exit status"])
prop("C22", "Link-tracking log entries are recovered once and in order",
 "Parsing a link-tracking log yields every used entry exactly once, in stored order and never an unused one, with identifiers, machine names, header fields and time range as stored, for either sector size (given or detected). A cut last sector is ignored, and a bad signature or unsupported entry type is refused with the entries before it already reported.",
 ["inputs"], "every log content and sector size",
 "Three captured logs are tested.",
 ["dfir_ntfs/MoveTable.py"], [("MoveTableParser.log_entries", "dfir_ntfs/MoveTable.py")],
 ["log_entries, header getters"])
prop("C23", "Results do not depend on where a volume lies in the image",
 "A volume placed at any sector-aligned offset inside a larger image, surrounded by arbitrary other bytes, yields exactly the same results as the same volume alone, for every parser that accepts an offset. No byte outside a well-formed volume's extent influences a result.",
 ["inputs", "configurations"], "every volume, offset and surrounding content",
 "Tests use one or two fixed offsets.",
 ["dfir_ntfs/MFT.py", "dfir_ntfs/ShadowCopy.py", "dfir_ntfs/addons/FAT.py", "dfir_ntfs/addons/exFAT.py", "dfir_ntfs/Attributes.py"], [("volume_offset arithmetic", "all volume parsers")],
 ["all volume parsers"])
prop("C24", "The master file table is found and reassembled for every volume geometry",
 "From a raw NTFS volume of any valid geometry (sector, cluster and record sizes) the master file table is located and read back byte for byte, whatever its fragmentation, including when its run list is itself spread over several extension records. Boot sectors with impossible geometry (a sector size that is not a positive multiple of 512, zero-sized clusters or records, a table at cluster zero) are refused.",
 ["inputs", "configurations"], "every geometry and fragmentation of the table",
 "Two volumes are tested.",
 ["dfir_ntfs/BootSector.py", "dfir_ntfs/MFT.py"], [("BootSector", "dfir_ntfs/BootSector.py"), ("FileSystemParser", "dfir_ntfs/MFT.py")],
 ["FileSystemParser read, BootSector getters"])
prop("C25", "File timestamps carved from memory match the cached structures present",
 "Carving a memory image that holds enough file control blocks to determine their layout reports every control block exactly once, in image order, with its position, possible file reference and five timestamps as stored, wherever in a memory page it lies. Nothing is reported for memory that does not hold such a structure, and too few or contradictory candidates are refused.",
 ["inputs"], "every memory image and every placement of cached structures",
 "One sample structure is tested.",
 ["dfir_ntfs/MFT.py"], [("MetadataCarver.carve_fcb_timestamps", "dfir_ntfs/MFT.py")],
 ["carve_fcb_timestamps"])
prop("C26", "Volume, log and snapshot headers report exactly what is stored",
 "For every valid FAT, exFAT or NTFS boot sector, FAT information sector, pair of reserved FAT elements, log restart page with its restart area and clients, NTFS log checkpoint record and shadow-copy start, catalog, bitmap, difference, location or application block, each reported field (geometry, serial numbers, labels, versions, state flags, identifiers, positions, lengths) equals the stored one, with optional parts reported as absent exactly when they are not stored. Values derived from a header (FAT type and cluster count, position and size of the active FAT, record sizes given as exponents) follow from the stored fields as the format defines, and a structure with a wrong signature, type, size or an impossible geometry is refused with the library's own error.",
 ["inputs"], "every combination of stored field values in each of these headers",
 "The tests check a few fields of a few sample headers, most of which hold zero or identical values; widths, offsets, masks and boundary values of each field are not sampled.",
 ["dfir_ntfs/BootSector.py", "dfir_ntfs/addons/FAT.py", "dfir_ntfs/addons/exFAT.py", "dfir_ntfs/LogFile.py", "dfir_ntfs/ShadowCopy.py"],
 [("BootSector", "dfir_ntfs/BootSector.py"), ("BSBPB, FSINFO, FAT", "dfir_ntfs/addons/FAT.py"), ("BR", "dfir_ntfs/addons/exFAT.py"), ("RestartPage, RestartArea, ClientRecord, NTFSRestartArea", "dfir_ntfs/LogFile.py"), ("StartBlock, ControlBlock and the other shadow blocks", "dfir_ntfs/ShadowCopy.py")],
 ["getters of the header classes"])
prop("C27", "Answers depend on the input only, never on the history of use",
 "Any query put to a parser or decoded structure (enumerating, looking up, walking, reading, selecting a shadow copy and reading it, decoding a field) gives the same answer however often and in whatever order queries are made, while other iterations of the same object are under way or were abandoned, when several parsers share one file object, and when another user of the file object has moved its position in between. A selection that fails never makes later reads return a mixture of two shadow copies.",
 ["histories", "schedules"], "every order, repetition and interleaving of queries and every position the shared file object is left at",
 "Tests ask one question of one fresh object; state kept between queries (caches, positions, remembered sizes) shows only in sequences they never run.",
 ["dfir_ntfs/MFT.py", "dfir_ntfs/LogFile.py", "dfir_ntfs/USN.py", "dfir_ntfs/ShadowCopy.py", "dfir_ntfs/PartitionTable.py", "dfir_ntfs/MoveTable.py", "dfir_ntfs/Attributes.py", "dfir_ntfs/addons/FAT.py", "dfir_ntfs/addons/exFAT.py"],
 [("MasterFileTableParser, FileSystemParser, FragmentedFile", "dfir_ntfs/MFT.py"), ("LogFileParser.parse_ntfs_records", "dfir_ntfs/LogFile.py"), ("ShadowParser.select_shadow", "dfir_ntfs/ShadowCopy.py"), ("FileSystemParser.walk", "dfir_ntfs/addons/FAT.py")],
 ["any public query of the parsers and decoded structures"])

prop("C28", "Nothing is read from outside its declared bounds",
 "For any file record, every reported attribute's name, value and run list is exactly the byte range its header declares, lying wholly inside that attribute and inside the used part of the record; a record or attribute header that says otherwise (ranges that leave the attribute, the used part or the record, or that overlap the header or the name; cluster ranges or sizes that contradict each other; unknown forms) is refused with the library's own error after the attributes before it were reported. Reading an NTFS stream whose run list does not cover it, or any stream, list or cluster chain with clusters beyond the end of the volume, is refused, never filled up, cut short or taken from elsewhere; a FAT or exFAT cluster marked bad reads as zero bytes.",
 ["inputs"], "every record layout, every declared offset and length, every run list and cluster chain, every end of the volume",
 "Tests use well-formed records; a range check that is off by one, or missing for one of the forms, only shows for headers that lie.",
 ["dfir_ntfs/MFT.py", "dfir_ntfs/addons/FAT.py", "dfir_ntfs/addons/exFAT.py"],
 [("FileRecordSegment.attributes", "dfir_ntfs/MFT.py"), ("FileRecordSegment.validate_file_record_segment_header", "dfir_ntfs/MFT.py"), ("FragmentedFile", "dfir_ntfs/MFT.py"), ("AttributeRecordNonresident.value_decoded", "dfir_ntfs/MFT.py"), ("FileSystemParser.read_chain", "dfir_ntfs/addons/FAT.py"), ("FileSystemParser.read_chain", "dfir_ntfs/addons/exFAT.py")],
 ["FileRecordSegment.attributes(), FragmentedFile.read(), read_chain()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
