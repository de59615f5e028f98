#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
W = "xdvdfs-core/src/write/"
R = "xdvdfs-core/src/read.rs"
L = "xdvdfs-core/src/layout.rs"
B = "xdvdfs-core/src/blockdev.rs"

prop("C01", "Packing a tree and reading it back gives the same tree",
 "Packing any representable directory tree succeeds, and the image read back holds exactly the directories and files of the source, with the same names (character for character), sizes and bytes, and nothing else. This holds whatever the number, listing order, nesting, name lengths and sizes of the entries, including images and files larger than 4 GiB in total.",
 ["inputs"], "every finite tree of names that Windows-1252 can hold and of file sizes below 4 GiB, in every listing order",
 "The tests pack a handful of trees with short ASCII names; they reach no sector boundary in a directory table, no name over a few bytes, no wide or deep tree and no image past 4 GiB.",
 [W+"img.rs", W+"dirtab.rs", W+"sector.rs", W+"avl.rs", W+"fs/stdfs.rs", L, R],
 [("create_xdvdfs_image", W+"img.rs"), ("DirectoryEntryTableWriter::disk_repr", W+"dirtab.rs"), ("file_tree / read_data_all", R)],
 [("dir_sectors", "where each directory table was allocated", W+"img.rs")],
 ["library pack and read API", "xdvdfs pack on a real directory"])

prop("C02", "Packed images are laid out soundly",
 "In every image the packer completes, sector 32 holds a valid volume descriptor naming the root directory, and every directory table and every non-empty file has a sector-aligned region of its own that lies inside the image and overlaps neither another one nor the descriptor. Directory entries are 4-byte aligned, lie inside their table, overlap nothing and never cross a sector boundary, are flagged as directory exactly when they are one, and bytes of a table that no entry uses are 0xFF. The image length is a multiple of 32 sectors.",
 ["inputs"], "every packable tree, every listing order, every output device",
 "Tests compare a few fixed listings and never parse the produced bytes independently of the reader that shares the writer's assumptions.",
 [W+"img.rs", W+"dirtab.rs", W+"sector.rs", L],
 [("SectorAllocator::allocate_contiguous", W+"sector.rs"), ("sector_align", W+"dirtab.rs"), ("64 KiB padding", W+"img.rs")],
 [("next_free", "first sector not yet handed out", W+"sector.rs")], ["raw bytes of the image"])

prop("C03", "Directories are balanced search trees and lookup is exact",
 "Every directory table the packer writes is a height-balanced binary search tree ordered by ASCII-case-insensitive comparison of the names. In such an image, looking up a stored path in any ASCII casing finds exactly that entry, and a path that names nothing is reported as missing.",
 ["inputs"], "every set of sibling names and every order of inserting them, every casing of every path",
 "Unit tests insert two short fixed sequences into the tree; the rotation cases, the characters between 'Z' and 'a', prefixes and non-ASCII names are not covered by any lookup test.",
 [W+"avl.rs", W+"dirtab.rs", "xdvdfs-core/src/util.rs", R],
 [("AvlTree::insert", W+"avl.rs"), ("cmp_ignore_case_utf8", "xdvdfs-core/src/util.rs"), ("find_dirent / walk_path", R)],
 [], ["raw table bytes", "walk_path", "xdvdfs ls/info/copy-out PATH"])

prop("C04", "All ways of listing an image agree",
 "On every well-formed image, whether written by this packer or not, the tree walk, the sequential scan, the recursive listing and path lookup report the same entries with the same name, kind, position and size: each stored entry exactly once and nothing else. Empty directories, represented as size zero or as a blank table, list as empty.",
 ["inputs"], "every well-formed image: any search-tree shape, entry placement, attributes, blank-fill byte and 'no child' marker",
 "Tests only read images this packer made, whose trees and placement have one shape, and never compare the listing methods with each other.",
 [R, L], [("walk_dirent_tree", R), ("DirentScanIter::next_entry", R), ("file_tree", R), ("find_dirent", R)],
 [], ["library read API", "xdvdfs ls and ls --scan"])

prop("C05", "Hostile images never hang or crash a reader",
 "Whatever bytes an image holds, every read operation (opening, lookup, walk, scan, recursive listing, checksum, data reads, repacking, and the CLI and daemon commands on top of them) ends with a result or an error: no panic, abort, endless loop or unbounded output. Cyclic or shared directory structures are reported as errors instead of being followed again and again.",
 ["inputs"], "every byte string, in particular every pointer graph among directory entries and tables",
 "No test feeds a malformed image; the state space of pointer graphs cannot be sampled by examples.",
 [R, L, B, W+"fs/xdvdfs.rs", "xdvdfs-core/src/checksum.rs"],
 [("visited sets in walk_dirent_tree and file_tree", R), ("bounded search in find_dirent", R), ("sector bound checks in DirentScanIter", R), ("dirtab_paths", W+"fs/xdvdfs.rs")],
 [], ["library read API", "CLI exit status"])

prop("C06", "The volume is found exactly where one exists",
 "An image is accepted exactly when a volume descriptor with both magic values lies at sector 32 counted from one of the four known partition offsets, and it is then read relative to the first such offset, so that every answer is the same as for the bare partition. Everything else, including short files and descriptors with one damaged magic byte, is rejected with an error by the library, the command line tool (exit status non-zero) and the mount daemon.",
 ["inputs"], "every offset, every placement or damage of the descriptor, every file length",
 "Tests only use raw images at offset 0.",
 [B, R, "xdvdfs-cli/src/img.rs", "xdvdfs-fsd/src/main.rs", "xdvdfs-fsd/src/daemonize.rs"],
 [("OffsetWrapper::new", B), ("read_volume", R), ("VolumeDescriptor::is_valid", L)],
 [], ["OffsetWrapper", "CLI commands", "xdvdfsd"])

prop("C07", "File data reads return exactly the stored bytes",
 "Reading a file of a well-formed image returns exactly its stored bytes: whole-file reads return all of them, ranged reads return the part of the range that lies inside the file (empty at or past its end), through every kind of device and at every partition offset. If the image ends before the requested bytes do, the read fails instead of returning other or fewer bytes.",
 ["inputs"], "every file position and size, every range, every truncation point, every reader",
 "Tests cover only empty reads; boundaries at sector ends, ends of file, 4 GiB and truncated images are not reached.",
 [L, B, R], [("read_data_all / read_data_offset / read_data / seek_to", L), ("BlockDeviceRead impls", B)],
 [], ["library read API"])

prop("C08", "Repacking an image preserves its contents",
 "Packing from an existing image, at any partition offset and however that image is laid out, produces an image with exactly the same tree, names, sizes and file bytes, and leaves the source image unchanged; repacking again changes nothing more. If the source cannot be read completely, repacking fails.",
 ["inputs", "histories"], "every well-formed source image and every chain of repacks",
 "Tests repack only images produced by this packer at offset 0 with a few files.",
 [W+"fs/xdvdfs.rs", W+"img.rs", "xdvdfs-cli/src/cmd_pack.rs"],
 [("XDVDFSFilesystem", W+"fs/xdvdfs.rs"), ("StdIOCopier / DefaultCopier", W+"fs/xdvdfs.rs"), ("PathPrefixTree", W+"fs/mod.rs")],
 [], ["library repack", "xdvdfs pack IMAGE"])

prop("C09", "The content checksum is canonical",
 "The content checksum is a function of the tree alone: the full paths in byte order, each followed for files by the file's bytes. It is the same for every layout, listing order, partition offset, compression and device of the same tree, and it differs whenever that sequence of paths and bytes differs. If the image's data cannot be read completely, an error is reported instead of a checksum.",
 ["inputs"], "every pair of images",
 "Tests compare at most two images of one tree.",
 ["xdvdfs-core/src/checksum.rs", R, "xdvdfs-cli/src/cmd_read.rs"],
 [("checksum", "xdvdfs-core/src/checksum.rs")], [], ["library checksum", "xdvdfs checksum"])

prop("C10", "Compressed images hold the same bytes",
 "Compressing a directory or an image yields a container whose decompressed sectors equal, byte for byte, the image that packing the same source produces, and every reading command gives the same answers on the compressed file as on that image. This holds for every file size and for entries not aligned to a sector.",
 ["inputs"], "every tree and every well-formed source image",
 "The only test compares the checksum of one tiny tree.",
 [W+"fs/sector_linear.rs", "xdvdfs-cli/src/cmd_compress.rs", "xdvdfs-cli/src/img.rs"],
 [("SectorLinearBlockDevice", W+"fs/sector_linear.rs"), ("CisoSectorInput::read_sector", W+"fs/sector_linear.rs"), ("CSOBlockDevice::read", "xdvdfs-cli/src/img.rs")],
 [], ["decompressed container", "CLI on .cso"])

prop("C11", "Remap rules select and place files as documented",
 "With map rules, the packed tree consists of exactly the host entries whose path, or whose nearest matching ancestor, matches a rule: the first matching rule decides the image path, a later matching '!' rule removes the entry again, '{n}' stands for the n-th wildcard match, entries below a matched directory keep their relative path, and of two hosts mapped to one image path the first stays. The dry-run listing and the image built from the same rules agree, and rules given by flags, by a spec file in the source directory, by one named instead of the source, by -f, or by a spec generated from the flags are equivalent; the image lands at the output path given, else at that of the spec relative to the source, else beside the source. Rules that are malformed or missing are refused without writing anything.",
 ["inputs", "configurations"], "every host tree and every list of rules built from literals, ?, *, **, alternatives and classes",
 "Tests try a few single rules on one tree; interaction of rules, ancestors, negation and collisions is not covered.",
 [W+"fs/remap.rs", W+"fs/mod.rs", "xdvdfs-cli/src/cmd_build_image.rs"],
 [("RemapOverlayFilesystem::new", W+"fs/remap.rs"), ("dump", W+"fs/remap.rs"), ("deserialize_overlay_config", "xdvdfs-cli/src/cmd_build_image.rs")],
 [("img_to_host", "image path to host entry", W+"fs/remap.rs")], ["library overlay", "xdvdfs build-image [-D]", "xdvdfs image-spec"])

prop("C12", "Failed or interrupted packing is never mistaken for success",
 "If listing a directory, reading a source file or writing the output fails at any point, packing reports an error (and the tool exits non-zero). If the process stops at any point, the unfinished image (compressed containers aside) is not accepted as a volume unless every directory and file of the source can already be read from it intact.",
 ["fault_sequences", "crash_points"], "every single failing operation and every crash point, torn writes included, of every packing run",
 "No test injects a fault or inspects an unfinished image.",
 [W+"img.rs", W+"fs/stdfs.rs", W+"fs/xdvdfs.rs", B, "xdvdfs-cli/src/cmd_pack.rs", "xdvdfs-cli/src/cmd_build_image.rs", "xdvdfs-cli/src/cmd_compress.rs"],
 [("volume descriptor written after all data", W+"img.rs"), ("error propagation with ?", W+"img.rs"), ("final flush", "xdvdfs-cli/src/cmd_pack.rs")],
 [], ["sequence of device operations", "system calls of xdvdfs pack"])

prop("C13", "Rewriting an image never loses the original",
 "In extract-xiso rewrite mode, at every moment and after every failure or crash, the original image's bytes still exist in full under its own name or under the .old name, unless deletion was requested and the rewritten image is complete. After success the rewritten image, under the original name in the original or requested directory, has the same tree; the .old file is the untouched original, or is gone if deletion was requested.",
 ["crash_points", "fault_sequences", "configurations"], "every option combination and every failing or last-executed file operation",
 "One test checks a successful rewrite; no failure or interruption is tried.",
 ["xdvdfs-cli/src/exiso_compat.rs", "xdvdfs-cli/src/cmd_pack.rs"],
 [("exiso_repack: rename, pack, then remove", "xdvdfs-cli/src/exiso_compat.rs")], [],
 ["file system after each system call"])

prop("C14", "Packing never destroys its source",
 "Packing (pack, extract-xiso -c) or compressing whose output path is the source, or lies inside the source directory, however the two paths are spelled (relative, with dot segments, through symlinked directories or symlinks to the source), is refused before anything is written; every other writable location is accepted. In every run, successful or not, the source image or source files keep their names and bytes, and no file other than the stated output is created, changed or removed.",
 ["inputs", "configurations"], "every spelling of source and output path, every command that packs",
 "Tests check two spellings.",
 ["xdvdfs-cli/src/cmd_pack.rs", "xdvdfs-cli/src/cmd_compress.rs", "xdvdfs-cli/src/img.rs", "xdvdfs-cli/src/exiso_compat.rs"],
 [("absolute_path comparison", "xdvdfs-cli/src/img.rs"), ("get_default_image_path", "xdvdfs-cli/src/cmd_pack.rs")], [],
 ["file system before and after the command"])

prop("C15", "Extraction reproduces the image",
 "Unpacking a well-formed image creates exactly its directories (empty ones too) and files with the stored bytes under the output directory, and copying out a file or directory does the same for that part; existing files of the same name are replaced completely. If the image is truncated or the path names nothing, the command fails with a non-zero status.",
 ["inputs"], "every well-formed image with host-representable names, every path in it, any partition offset",
 "Tests unpack one small image.",
 ["xdvdfs-cli/src/cmd_unpack.rs", "xdvdfs-cli/src/exiso_compat.rs"],
 [("copyout_directory", "xdvdfs-cli/src/cmd_unpack.rs"), ("cmd_copyout", "xdvdfs-cli/src/cmd_unpack.rs")], [],
 ["file system after unpack / copy-out / extract-xiso -x"])

prop("C16", "Extraction stays inside the output directory",
 "Whatever names an image holds ('..', '.', names with slashes or backslashes or NUL, empty names), extracting from it never creates, changes or removes anything outside of the output directory; a name that would lead elsewhere makes the command fail.",
 ["inputs"], "every image, every entry name on every level",
 "No test extracts a hostile name.",
 ["xdvdfs-cli/src/cmd_unpack.rs"], [("name check in copyout_directory", "xdvdfs-cli/src/cmd_unpack.rs")], [],
 ["file operations of the command, run unprivileged in a scratch directory"])

prop("C17", "The mounted namespace matches the image with stable inodes",
 "Through the mount daemon, lookups, attributes and directory listings show exactly the image's entries with their kind and size (lookup ignoring ASCII case, missing names answered as missing), whatever the order of requests. An entry has one inode number for the whole session, the same from lookup and listing, no two entries share one, and a listing resumed at any returned offset continues without repeating or dropping entries.",
 ["histories", "inputs"], "every sequence of file system requests on every well-formed image",
 "There is no test of the daemon.",
 ["xdvdfs-fsd/src/img_fs.rs"], [("get_or_assign_inode", "xdvdfs-fsd/src/img_fs.rs"), ("lookup / getattr / readdir", "xdvdfs-fsd/src/img_fs.rs")],
 [("inode_lookup, inode_rev_lookup, next_inode", "assigned inode numbers", "xdvdfs-fsd/src/img_fs.rs")], ["FUSE protocol messages"])

prop("C18", "Reads through the mount return the file's bytes",
 "A read of a file through the mount daemon returns exactly the bytes of the requested range that lie inside the file, nothing at or past its end, and an error for directories-as-root, unknown inodes or data missing from a truncated image; opening for writing is refused. Earlier requests of the session never change the answer.",
 ["histories", "inputs"], "every sequence of requests, every offset and size including beyond 4 GiB of image",
 "There is no test of the daemon.",
 ["xdvdfs-fsd/src/img_fs.rs", L], [("read", "xdvdfs-fsd/src/img_fs.rs"), ("read_data_offset", L)], [], ["FUSE protocol messages"])

prop("C19", "What the format cannot hold is rejected, everything else accepted",
 "Packing fails with an error, never a panic and never a silently altered image, when the tree holds a name over 255 characters (one byte each on disk), a character outside Windows-1252, two siblings equal up to ASCII case, a file of 4 GiB or more, a directory whose entries cannot be addressed, more data than 2^32 sectors hold, or (in a host directory) an entry that is neither a file nor a directory or whose name is not text. Every tree inside these limits, up to the exact boundary values, is accepted.",
 ["inputs"], "every tree, in particular those at and one past each limit",
 "Tests cover one duplicate and one overlong name at most.",
 [W+"dirtab.rs", W+"img.rs", W+"avl.rs", L], [("add_node / add_file / add_dir", W+"dirtab.rs"), ("encode_name", L), ("TooManyDirectoryEntries", W+"dirtab.rs")], [],
 ["library pack result", "xdvdfs pack exit status"])

prop("C20", "The image does not depend on the device or build flavour",
 "The same source packed to a file, a buffered file of any buffer size, a memory buffer or the sector-addressed device used for compression gives the same bytes (up to trailing zero padding where the device has a fixed size), in the asynchronous and the synchronous build alike. Every block device stores and returns exactly what was written where it was written, reports its length correctly and rejects accesses outside of its bounds.",
 ["inputs", "histories", "configurations"], "every sequence of device operations, every tree, every device, both builds",
 "Each test uses one device and only the default build.",
 [B, W+"fs/sector_linear.rs", W+"fs/xdvdfs.rs", W+"img.rs"], [("BlockDeviceWrite impls", B), ("SectorLinearBlockDevice", W+"fs/sector_linear.rs")], [],
 ["device contents"])

prop("C21", "Command line reports tell the truth",
 "ls, tree, md5, info and checksum print exactly the entries, sizes, totals, hashes and locations that the image holds, for the whole image or the given path, and exit non-zero when the image or path is invalid. The progress of packing names every directory and file once, with the sector where it actually is, and announces the right totals.",
 ["inputs"], "every well-formed image, every path in it",
 "Tests compare the output of a few commands on one tiny image.",
 ["xdvdfs-cli/src/cmd_read.rs", "xdvdfs-cli/src/cmd_md5.rs", "xdvdfs-cli/src/cmd_info.rs", "xdvdfs-cli/src/cmd_pack.rs", W+"img.rs"],
 [("cmd_ls / cmd_tree / cmd_checksum", "xdvdfs-cli/src/cmd_read.rs"), ("cmd_md5", "xdvdfs-cli/src/cmd_md5.rs"), ("cmd_info", "xdvdfs-cli/src/cmd_info.rs"), ("ProgressInfo", W+"img.rs")], [],
 ["standard output and exit status", "progress callbacks"])

prop("C22", "Unreadable parts of an image are never mistaken for content",
 "When part of an image cannot be read (the image ends early, some sectors are unreadable, or a single read fails), whoever asks about it through the library, the command line tool or the mount daemon is either told that the operation failed or gets exactly the answer the intact image would give: no listing without the lost entries, no existing path reported as missing, no shortened or altered contents, no repacked or extracted result that lacks them, and no crash. What the damage does not touch stays accessible: listing a directory, looking up a path and reading a file succeed whenever the volume descriptor, the directories on the way and the bytes asked for are readable. A read that delivers less than requested at once is not a failure.",
 ["inputs", "fault_sequences"], "every image, every set of unreadable sectors, every point at which the image ends, every single failing or partial read, every reading operation",
 "No test reads a damaged image; which read meets the damage depends on the layout and on how the reader moves through it.",
 [R, L, B, "xdvdfs-core/src/checksum.rs", W+"fs/xdvdfs.rs", "xdvdfs-cli/src/cmd_read.rs", "xdvdfs-cli/src/cmd_md5.rs", "xdvdfs-cli/src/cmd_info.rs", "xdvdfs-cli/src/cmd_unpack.rs", "xdvdfs-fsd/src/img_fs.rs"],
 [("DirentScanIter::next_entry", R), ("read_dirent, find_dirent, walk_dirent_tree, file_tree", R), ("read_data, read_data_all, read_data_offset", L), ("copyout_directory", "xdvdfs-cli/src/cmd_unpack.rs"), ("lookup, readdir, read", "xdvdfs-fsd/src/img_fs.rs")],
 [], ["library read API over a failing device", "exit status and output of the commands", "FUSE replies"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
