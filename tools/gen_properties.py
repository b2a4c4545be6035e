#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Results do not depend on how a stream delivers its bytes",
  "Reading a package's headers, iterating or extracting its payload, iterating or extracting a bare cpio archive, verifying and signing give the same outcome (same values, same files, same error-or-success) for a given sequence of bytes, no matter how the source splits it into reads: one byte at a time, arbitrary short reads, reads that return no bytes, or end-of-file reported together with the last bytes. Reading headers consumes exactly the lead and the two headers and nothing of the payload, and verifying or signing a stream consumes all of it.",
  ["schedules", "inputs"], "every split of every well-formed package or archive into reads, on in-memory streams and on files whose reads come back short",
  "The tests read whole files from a local disk, where every read is full; a socket, pipe or HTTP body returns short reads at arbitrary places.",
  ["rpmutils.go", "header.go", "verify_digests.go", "signatures.go", "uncompress.go", "cpio/cpio.go", "cpio/header.go", "cpio/stream.go", "cpio/extract.go"],
  [("headers are read with io.ReadFull", "header.go readExact, readHeader; cpio/header.go readHeader"), ("entry contents are bounded by the entry size and position", "cpio/stream.go file_stream.Read"), ("peeked magic bytes are spliced back", "uncompress.go")],
  observe=["return values of ReadHeader, ReadRpm, PayloadReaderExtended, PayloadReader, ExpandPayload, cpio.Extract, cpio.Reader, Verify, SignRpmStream", "number of bytes taken from the source"])

p("C02", "A truncated or failing stream is never reported as complete",
  "If the source of a package or cpio archive ends early or fails at any byte before its logical end, no operation reports completion: header reading, verifying, signing and extraction return an error, payload and archive iteration never reports the end-of-archive condition (io.EOF from Next) before the trailer entry has been read, and reading an entry never reports its end before all of its declared bytes have been delivered. Bytes and entries handed out before the error are exactly those of the intact input, and a read error from the source is not turned into success.",
  ["fault_sequences", "inputs"], "every cut point and every read error position, over every operation, compressor and archive flavour",
  "No test truncates an archive or makes a reader fail; the affected positions (inside a file, between entries, in padding, before the trailer) are thousands per package.",
  ["cpio/cpio.go", "cpio/stream.go", "cpio/reader.go", "cpio/extract.go", "payload.go", "rpmutils.go", "header.go", "verify_digests.go", "signatures.go"],
  [("short headers and names are errors", "cpio/header.go readHeader, cpio/cpio.go ReadNextEntry"), ("end of an entry is decided by its size", "cpio/stream.go"), ("end of the archive is decided by the trailer", "cpio/reader.go Next, cpio/extract.go"), ("payload digests are compared after copying the whole stream", "verify_digests.go digestPayload")],
  observe=["errors returned", "entries and bytes delivered before the error"])

p("C03", "Corrupt input never crashes or hangs the caller",
  "Whatever bytes a package or cpio archive holds - flipped, overwritten, duplicated or missing bytes, out-of-range offsets, counts, sizes and indexes - reading headers, every header accessor, listing files, iterating or extracting the payload, verifying and signing return to the caller with a value or an error. They never panic, never loop without consuming input, and never allocate memory out of proportion to what the input really contains (apart from the decompression window that a compressed payload's format lets it declare).",
  ["inputs", "fault_sequences"], "every corruption of stored or transmitted bytes, in any field of lead, headers, cpio records and signatures",
  "The tests only read well-formed packages plus one header digest mismatch.",
  ["header.go", "rpmutils.go", "signatures.go", "payload.go", "cpio/cpio.go", "cpio/header.go", "cpio/stream.go", "cpio/extract.go", "verify_v4.go", "verify_digests.go"],
  [("tag tables are decoded against the data area", "header.go readHeader"), ("file attributes come from parallel arrays", "header.go GetFiles"), ("stripped entries index a size table", "cpio/cpio.go readStrippedEntry"), ("signature packets are parsed and type-checked", "verify_v4.go parseSignature")],
  observe=["panics", "statements executed", "bytes allocated"])

p("C04", "Payload iteration yields exactly the archive's entries",
  "For every well-formed newc or RPM-stripped cpio archive, and every package payload in any supported compression, iterating with Next and Read in any pattern (partial reads, entries skipped or abandoned half-way, reads past the end of an entry, any buffer sizes) yields every entry once, in archive order, with its metadata and exactly its own bytes, then io.EOF at the trailer; bytes of one entry never appear in another. For packages each entry is matched to its own file attributes, hard-link group members without contents and only those are flagged as links, and files larger than 4 GiB are read at their true size; an entry that belongs to no file of the package, or whose size nothing tells, gives an error and is never presented as another file. A payload that says to be of a format or compression that is not supported is refused and never taken for another.",
  ["histories", "inputs"], "every sequence of Next/Read calls with every buffer size, over every archive of regular files, directories, symlinks, hard-link groups and large files",
  "The tests iterate two fixed archives straight through; skipping, abandoned entries, padding of each residue, link groups and sizes above 4 GiB are not reached.",
  ["cpio/cpio.go", "cpio/reader.go", "cpio/stream.go", "cpio/header.go", "payload.go", "rpmutils.go", "uncompress.go", "header.go"],
  [("position of the next record is kept and skipped to", "cpio/cpio.go CpioStream.nextPos"), ("sizes of stripped entries come from the header", "cpio/cpio.go SetFileSizes, payload.go newPayloadReader"), ("link groups are found by device and inode", "payload.go newPayloadReader")],
  state=[("nextPos/curPos", "stream offset of the next record and of the reader", "cpio/cpio.go"), ("isLink, fileMap, index", "per-file link flags, name lookup and current file", "payload.go")],
  observe=["sequence of results of Next, Read, IsLink, FileInfo and header accessors"])

p("C05", "Extraction never touches anything outside the destination",
  "Whatever names, symbolic links, hard links and special files an archive contains, in whatever order, and whatever already exists in the destination directory, extracting it creates, changes, truncates or removes nothing outside the destination directory, and never blocks on a special file found or created there. This holds at every moment of the extraction, also when system calls fail half-way.",
  ["inputs", "histories", "fault_sequences"], "every archive, every prior content of the destination (including symlinks an earlier extraction planted), every spelling of the destination path, and every sequence of failing system calls",
  "The only containment test is one archive with ../ in one name; sequences that first plant a symlink and then write through it are not reached.",
  ["cpio/extract.go", "rpmutils.go", "fileutil/fileutil_unix.go"],
  [("names are cleaned and joined below the destination", "cpio/extract.go Extract"), ("hard links only refer to names of the same archive", "cpio/extract.go Extract")],
  observe=["every mutation the (simulated) file system sees, with the directory it happens in"])

p("C06", "A successful extraction is complete and exact",
  "If extracting an archive or package payload returns success, the destination holds exactly what the archive describes: every regular file with its exact bytes, every directory, symbolic link with its exact target and FIFO, hard-linked names sharing one file (including groups of empty files), nothing missing and nothing extra; directories and FIFOs made for an entry have its permission bits less the umask, directories made on the way to one are not writable by others. Where the destination already holds things, every name of the archive still ends up exactly as described - or, if something else is in the way of it, the extraction returns an error - and everything under other names stays as it was. If any system call needed for that fails - disk full, I/O error, failed write-back at close, too many open files - the extraction returns an error instead, and interrupted or short system calls are not mistaken for either.",
  ["fault_sequences", "inputs"], "every archive and compression, every prior content of the destination, every failing, short or interrupted system call during the extraction",
  "Tests extract two archives on a healthy disk and mostly only check for the absence of an error.",
  ["cpio/extract.go", "rpmutils.go", "uncompress.go", "uncompress_cgo.go", "uncompress_nocgo.go"],
  [("each file is copied and its length compared", "cpio/extract.go"), ("close errors are returned", "cpio/extract.go"), ("hard links are made once the contents exist", "cpio/extract.go linkMap")],
  state=[("linkMap", "hard-linked names waiting for their contents", "cpio/extract.go")],
  observe=["the simulated file system after the call", "the returned error"])

p("C07", "An interrupted extraction can simply be run again",
  "If an extraction is stopped at any point - the process is killed between or inside system calls, or it returns an error because a system call failed - then running the same extraction again into the same directory on a healthy system succeeds and leaves exactly the tree that an undisturbed extraction into an empty directory would have left. Extracting twice in a row therefore gives the same tree as extracting once.",
  ["crash_points", "fault_sequences", "histories"], "every crash or failure point of every extraction, followed by one or more further interrupted attempts and a final undisturbed one",
  "No test extracts into a directory that already holds anything.",
  ["cpio/extract.go"],
  [("existing directories are accepted", "cpio/extract.go"), ("regular files are truncated on re-creation", "cpio/extract.go os.Create")],
  observe=["the simulated file system after recovery compared with an undisturbed run"])

p("C08", "No descriptors or goroutines leak and caller's streams stay open",
  "When an operation returns, whether it succeeded or failed for any reason, every file it opened itself is closed again; payload extraction, and payload iteration once Next has returned an error or io.EOF, leave no background goroutine behind; streams and files supplied by the caller are never closed by the library; and the process still works in the same directory with the same file mode mask.",
  ["fault_sequences", "inputs"], "every operation, every failing system call, every truncation or corruption of the input",
  "One goroutine-leak test covers successful iteration of a healthy package; error paths are never exercised.",
  ["cpio/extract.go", "signatures.go", "payload.go", "rpmutils.go", "uncompress.go", "uncompress_nocgo.go"],
  [("deferred closes", "signatures.go rewriteRpm, writeInPlace; rpmutils.go ExpandPayload"), ("the decompressor is closed when Next fails", "payload.go Next"), ("uncompressed payloads are wrapped so that they are not closed", "uncompress.go noCloseWrapper")],
  observe=["open descriptors, working directory and file mode mask of the simulated kernel", "goroutines after the call", "Close calls on caller-supplied streams"])

p("C09", "Signing keeps the package and adds signatures that verify",
  "After a successful signing, by whichever route - to a new file, over an existing file, in place, to a pipe or standard output, by splicing the dumped signature header onto the original stream, or by inserting raw signatures - the result is the same package: lead, general header and payload are byte-for-byte those of the input, every signature-header tag other than signatures and reserved space is kept unchanged, exactly one header-only and one header-plus-payload signature by the given key are present in place of earlier ones, and an independent check as well as the library's own verification accept it and report that key. A package file made for the output (not one updated in place) has mode 0644 whatever the umask. Signing again, with the same or another key, any number of times, keeps this true.",
  ["histories", "inputs", "configurations"], "every package layout (reserved space, digests, compressors, source packages), key type, hash, output route and sequence of re-signings, with arbitrary short reads and writes",
  "One test signs one package with one key to one new path and one in-place file; the route depends on sizes, links, file types and history.",
  ["signatures.go", "writeheader.go", "verify.go", "verify_digests.go", "verify_v4.go", "header.go"],
  [("old signatures are removed, new ones inserted", "signatures.go insertSignatures"), ("the signature header is re-serialised and padded", "writeheader.go WriteTo, DumpSignatureHeader"), ("the rest of the file is copied from the end of the original signature header", "signatures.go writeRpm")],
  observe=["bytes of the output", "an independent parser and OpenPGP verifier", "Verify"])

p("C10", "A crash never leaves a half-written signed package under its name",
  "While a package is signed to a path by way of a replacement file (every case except in-place update and pipes), the path at every moment names either what it named before - the old file or nothing - or the complete new package, and after an abrupt kill of the process or loss of power at any point it still does. Running the signing again afterwards succeeds.",
  ["crash_points", "fault_sequences"], "every point (system call or statement) at which the process is killed or power is lost, every write-back order, every failing call before it",
  "No test interrupts signing; atomicity and durability of the rename sequence only show under a crash.",
  ["signatures.go"],
  [("write to a temporary file in the same directory, then rename", "signatures.go rewriteRpm")],
  observe=["what the output path names after every mutation and after recovery"])

p("C11", "Signing reports success exactly when the output is complete",
  "If signing to a path or stream returns success, the output is the complete signed package, even if system calls were interrupted, short or failed along the way; if any write, flush to disk (fsync), close or rename needed for it fails, an error is returned. When signing by way of a replacement file returns an error, the output path still names what it named before and no temporary file is left behind in its directory.",
  ["fault_sequences"], "every failing, short or interrupted system call at every point of every output route",
  "No test makes a system call fail; each error path is a separate few lines that never run.",
  ["signatures.go", "writeheader.go"],
  [("errors of write, close and rename are propagated", "signatures.go rewriteRpm, writeRpm, writeInPlace"), ("the temporary file is removed on failure", "signatures.go rewriteRpm")],
  observe=["returned error", "output path and its directory afterwards", "bytes received by the pipe or standard output"])

p("C12", "Signing changes nothing but its output",
  "Signing to a path never changes any file other than the one that path names: the input package keeps its contents unless it is itself the output, other names hard-linked to a file keep their old contents when one of the names is signed, and when the output path is a symbolic link, the link itself stays and only the file it finally names is replaced. This holds at every moment, also when system calls fail or the process is killed.",
  ["histories", "fault_sequences", "crash_points", "configurations"], "every relation between input and output path (same, hard-linked, symlinked, distinct, existing or not), every fault and crash point",
  "Tests sign plain files in a fresh directory; link relations and faults are never combined.",
  ["signatures.go", "fileutil/fileutil_unix.go", "cpio/extract.go"],
  [("in-place update is refused unless the output is the same regular file without other links", "signatures.go canOverwrite; fileutil.HasLinks"), ("otherwise a new file replaces the name", "signatures.go rewriteRpm")],
  observe=["contents of every file in the simulated file system after every mutation"])

p("C13", "In-place signing only rewrites the signature area",
  "When a package is signed in place, at every moment - including after the process is killed or power is lost at any point - the file keeps its size, and everything behind the signature header (general header and payload) is untouched, so that putting a complete signature area of that size back gives a valid signed package again. A file is only updated in place when the new signature area has exactly the size of the old one.",
  ["crash_points", "fault_sequences", "inputs"], "every package with reserved space of every size, every crash point, torn write and failing call",
  "No test interrupts in-place signing or looks at intermediate states.",
  ["signatures.go", "writeheader.go"],
  [("the new area is padded to the old size or the in-place path is abandoned", "signatures.go writeInPlace; writeheader.go DumpSignatureHeader")],
  observe=["the file after every mutation and after recovery"])

p("C14", "Verification never accepts altered or foreign content",
  "Verification with a keyring succeeds with a signature listed as verified only if that signature was made by a key in the keyring over exactly the general header (header-only signatures) or the general header and payload (full signatures) that the stream contains; any change to those bytes in storage or transit, a signature taken from another package, one by an unknown key, or a damaged signature makes it fail. Without a keyring the package's own digests are still enforced, and a package without any usable payload digest is rejected; the reported hash, time and header-only flag are those of the signature itself, and the reported key (identity, key id and fingerprint) is the one that verifies it, whatever the unsigned part of the signature says.",
  ["inputs", "fault_sequences"], "every alteration of header, payload and signature bytes, every keyring, every delivery of the stream",
  "Tests verify intact packages plus one corrupted one; they cannot cover each byte, each tag combination and each keyring.",
  ["verify.go", "verify_digests.go", "verify_v4.go", "verify_nov3.go", "header.go"],
  [("each signature digests header, or header and payload", "verify_digests.go digestAndVerify"), ("signatures are checked against the keyring", "verify_v4.go validate, findKey"), ("digests are compared", "verify_digests.go digestPayload; header.go readHeader")],
  observe=["results of Verify against an independent OpenPGP verification"])

p("C15", "Header and payload digests are enforced before trust",
  "If the general header differs in any bit from what the header digest in the signature header covers, opening, reading, verifying, signing and rewriting the package all fail; if the payload differs from its recorded digest, verifying and signing fail and no output is produced. An intact package with any supported combination of digests (SHA-256 or SHA-1 header digest, payload digest of any supported algorithm, or only the legacy MD5) is accepted.",
  ["inputs", "fault_sequences"], "every bit error in general header or payload, at any time before or between reads, for every combination of digests",
  "One test has one wrong header digest; other digest kinds, positions and operations are not reached.",
  ["header.go", "signatures.go", "verify_digests.go", "rpmutils.go"],
  [("header digest checked on read", "header.go readHeader; signatures.go getHashAndType"), ("payload digest checked while hashing", "verify_digests.go digestPayload; signatures.go getPayloadDigest")],
  observe=["errors returned, output files"])

p("C16", "Signature time and hash follow the options or the clock",
  "Every signature made carries the creation time and hash algorithm requested in the options; where the options are absent or leave one of them unset, it carries the current wall-clock time at signing and SHA-256. Verification reports exactly these values, and a clock that jumps forwards or backwards during signing never produces a time outside the interval it showed during the call.",
  ["schedules", "configurations"], "every clock behaviour (skew, jumps, slow calls) and every combination of set and unset options",
  "Tests use the real clock and do not check the time that ends up in the signature.",
  ["signatures.go", "verify_v4.go"],
  [("defaults of SignatureOptions", "signatures.go hash, creationTime")],
  observe=["parsed signature packets", "Signature.CreationTime and Signature.Hash"])

p("C17", "Concurrent use is free of races and interference",
  "Any number of goroutines may at the same time read one opened package header through its accessors (tags, files, NEVRA, sizes, ranges), and run independent operations (reading, verifying, signing, extracting different packages, sharing one keyring) on different streams; each call returns what it would return if it ran alone, without data races, under every interleaving.",
  ["schedules"], "every interleaving of caller goroutines at statement granularity",
  "No test starts a second goroutine.",
  ["rpmutils.go", "header.go", "verify.go", "verify_v4.go", "signatures.go", "cpio/cpio.go", "payload.go", "tags.go"],
  [("header state is only read after parsing", "header.go, rpmutils.go"), ("no package-level mutable state", "all packages")],
  observe=["results compared with a run alone", "race detector under the simulator's schedule"])

p("C18", "The dumped signature header always fits back onto the package",
  "At any time after reading or signing, and after any sequence of earlier dumps, the dumped lead and signature header is well-formed and, put in place of the original signature area, yields the same package with all tags (other than reserved space) intact; asked for the same size it is exactly as long as the original area whenever the tags fit, and dumping is repeatable: equal requests give equal bytes whatever was requested in between, and the reported original size and header range stay those of the file that was read.",
  ["histories", "inputs", "configurations"], "every package layout, every sequence of sign / dump(same size) / dump(minimal) / accessor calls, every map iteration order",
  "One test dumps once after signing; call sequences and all residues of sizes around the padding boundaries are not reached.",
  ["writeheader.go", "rpmutils.go", "signatures.go"],
  [("tags are sorted and re-aligned", "writeheader.go WriteTo"), ("a reserved-space tag fills the rest", "writeheader.go DumpSignatureHeader")],
  state=[("entries[RESERVEDSPACE]", "padding tag added and removed on the shared header object", "writeheader.go")],
  observe=["bytes of the dump, re-parsed independently and by the library"])

p("C20", "Version comparison is a total order compatible with RPM",
  "Comparing versions and NEVRAs follows RPM's rules for every pair of strings and is reflexive, antisymmetric and transitive, so that sorting is well-defined.",
  ["inputs"], "every pair and triple of version strings", "Tests hold a fixed table of pairs.",
  ["vercmp.go", "nevra.go"], [("segment-wise comparison", "vercmp.go Vercmp")])
p("C21", "Header accessors return the stored values, at any time",
  "For every well-formed package, each typed accessor (Get, GetString(s), GetInt(s), GetUint32(s), GetUint64(s), GetUint64Fallback, GetBytes, HasTag, InstalledSize, PayloadSize, IsSource, GetRange) returns exactly the stored values in their stored order, or an error for absent tags (NoSuchTagError), tags of other types, and values or numbers of values that do not fit; tags below 1000 and above 16384 are those of the signature header, the others those of the general header. This holds however the header came to be (reading, verifying, signing) and was delivered, and for as long as it lives: whatever is dumped, extracted, read from other packages, fails or runs at the same time in between, except that signing replaces signatures and that dumping changes reserved space. Values that were handed out do not change later.",
  ["histories", "schedules", "inputs"], "every header content, every way and delivery in which it is read, every history of other operations on it and on other packages, and every interleaving of accessor calls",
  "Tests read a few tags of a few packages right after opening them, one package at a time.",
  ["header.go", "rpmutils.go", "signatures.go", "writeheader.go"], [("type-directed decoding", "header.go getInts, GetStrings, GetBytes"), ("two tag spaces", "rpmutils.go getHeader"), ("signing and dumping change the signature header they work on", "signatures.go insertSignatures, writeheader.go DumpSignatureHeader")],
  state=[("entries", "tag number to type, count and raw value; changed by signing and dumping", "header.go rpmHeader")],
  observe=["return values of the accessors after every step of a history"])
p("C22", "File lists and NEVRA reflect the header arrays, at any time",
  "For every well-formed package the file list has one element per file, with the path (spelled out, or put together from directory and base name), size (the 64-bit one where there is one), owner, group, flags, time, mode, digest, link target, device and inode (0 where none are recorded) stored at its index; a package without files has an empty list; and NEVRA holds name, epoch (0 if absent), version, release and architecture. This holds however the header came to be and was delivered, and for as long as it lives, whatever happens to it and to other packages in between or at the same time. Lists that were handed out do not change later. Where a header does not tell - an attribute is missing for a file or of another type, base names have no directories, a directory index leads nowhere, the name, version, release or architecture is missing, one of these or the epoch is of another type - the call returns an error and not a guess.",
  ["histories", "schedules", "inputs"], "every header content, every way and delivery in which it is read, every history of other operations on it and on other packages, and every interleaving of calls",
  "Tests list the files of a few packages right after opening them, one package at a time.",
  ["header.go", "nevra.go", "fileinfo.go", "payload.go", "rpmutils.go"], [("parallel arrays", "header.go GetFiles, GetNEVRA"), ("the file list is made before the payload is opened", "rpmutils.go PayloadReaderExtended")],
  observe=["return values of GetFiles, the FileInfo methods and GetNEVRA after every step of a history"])

p("C19", "Signing side by side: each path holds one whole package",
  "Any number of goroutines may at the same time sign packages into files - from the same inputs or different ones, into one directory, even to the same output path, directly or through symbolic links, or one of them a package onto itself - while others read those output paths. Without failing system calls every one of them succeeds; each failing system call makes at most one of them fail. At every moment, and after a kill or a power failure at any moment, each output path names either what was there before or one complete new package of one of those who sign to it, and a reader who opens it reads exactly one of these; in the end it holds the package of one that reported success, or what was there before if none did. Inputs and all other files keep their contents, and nothing else is left behind.",
  ["schedules", "crash_points", "fault_sequences", "configurations"], "every interleaving of signing and reading goroutines, every arrangement of their inputs and outputs, every failing system call and every crash point",
  "The tests sign one package at a time; what one goroutine's temporary files, clean-up and final rename do to another's is never exercised.",
  ["signatures.go", "writeheader.go"],
  [("each rewrite goes to a temporary file of its own", "signatures.go rewriteRpm os.CreateTemp"), ("it takes the output's name only when it is complete", "signatures.go rewriteRpm os.Rename"), ("only a failed rewrite removes its temporary file", "signatures.go rewriteRpm")],
  state=[("tempfile", "the unfinished output", "signatures.go rewriteRpm")],
  observe=["contents of every output path after every system call", "what readers of the paths get", "results of the calls", "directory contents in the end"])
p("C23", "Archives can be extracted side by side into one tree",
  "Any number of goroutines may at the same time extract archives or packages whose files have different names into one destination, with directories in common, whether or not these (or the destination itself) exist beforehand. Without failing system calls every one of them succeeds, and the destination then holds exactly what extracting them one after the other leaves; each failing system call makes at most one extraction fail, and what the others extract is complete and exact all the same; and after a kill at any moment the same extractions, run again side by side, succeed and leave the same tree.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "every interleaving of the extractions, every split of files over archives, every failing system call and every crash point",
  "The tests extract one archive at a time into a directory of its own.",
  ["cpio/extract.go", "rpmutils.go"],
  [("a directory made by somebody else is as good", "cpio/extract.go makeParent, Extract S_ISDIR"), ("only the names of the archive itself are replaced", "cpio/extract.go removeExisting"), ("links are collected per extraction", "cpio/extract.go linkMap")],
  state=[("linkMap, linkOrder", "hard-linked names waiting for their contents, of one extraction", "cpio/extract.go")],
  observe=["the simulated file system after the calls, compared with the archives and with extracting one after the other", "results of the calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
