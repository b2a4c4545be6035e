From 852f68acaadf4a6763fe3c0cdaa3ea36d4eb667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 01/24] fix: report a cpio archive that ends early as truncated

Running out of input inside a header, a name, file contents or padding was
reported as io.EOF, which for Reader.Next means that the archive was complete
and for Read that the file was. Return io.ErrUnexpectedEOF instead. Skipped
contents are no longer held in memory.
---
 cpio/cpio.go   | 22 +++++++++++++++-------
 cpio/reader.go |  5 +++++
 cpio/stream.go |  3 +++
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 8e4bba1..5cbb145 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -76,7 +76,7 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	// Read header
 	hdr, err := readHeader(cs.stream)
 	if err != nil {
-		return nil, err
+		return nil, noEOF(err)
 	} else if hdr.stripped {
 		return cs.readStrippedEntry(hdr)
 	}
@@ -84,7 +84,7 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	// Read filename
 	buf := make([]byte, hdr.namesize)
 	if _, err = io.ReadFull(cs.stream, buf); err != nil {
-		return nil, err
+		return nil, noEOF(err)
 	}
 
 	filename := string(buf[:len(buf)-1])
@@ -146,12 +146,20 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 	if offset == 0 {
 		return cr.curPos, nil
 	}
-	b := make([]byte, offset)
-	n, err := io.ReadFull(cr, b)
-	if err != nil && err != io.EOF {
-		return 0, err
+	n, err := io.CopyN(io.Discard, cr, offset)
+	if err != nil {
+		return 0, noEOF(err)
+	}
+	return n, nil
+}
+
+// noEOF is used where the archive must go on: running out of input before the
+// trailer is not the end of the archive
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
 	}
-	return int64(n), nil
+	return err
 }
 
 func pad(num int) int {
diff --git a/cpio/reader.go b/cpio/reader.go
index d78879e..cb08e69 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -22,6 +22,7 @@ import "io"
 type Reader struct {
 	stream *CpioStream
 	cur    *CpioEntry
+	done   bool
 }
 
 // NewReader starts reading a cpio archive stream
@@ -44,10 +45,14 @@ func NewReaderWithSizes(stream io.Reader, sizes []int64) *Reader {
 //
 // Returns io.EOF upon encountering the archive trailer.
 func (r *Reader) Next() (*Cpio_newc_header, error) {
+	if r.done {
+		return nil, io.EOF
+	}
 	ent, err := r.stream.ReadNextEntry()
 	if err != nil {
 		return nil, err
 	} else if ent.Header.filename == TRAILER {
+		r.done = true
 		return nil, io.EOF
 	}
 	r.cur = ent
diff --git a/cpio/stream.go b/cpio/stream.go
index 44a8619..a5547a2 100644
--- a/cpio/stream.go
+++ b/cpio/stream.go
@@ -59,5 +59,8 @@ func (fs *file_stream) Read(p []byte) (n int, err error) {
 	}
 	n, err = fs.stream.Read(p)
 	fs.curr_pos += int64(n)
+	if err == io.EOF && fs.curr_pos < fs.size {
+		err = io.ErrUnexpectedEOF
+	}
 	return
 }
-- 
2.43.0


From 409c420458c545c1dc2df7416643f04e7877e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 02/24] fix: reject invalid numbers in cpio headers

Signed hexadecimal fields, empty names and negative file sizes led to panics
or to endless loops, and a large name size to an allocation of that size.
---
 cpio/cpio.go   | 15 ++++++++++++---
 cpio/header.go |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 5cbb145..d07ffb3 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 )
 
 // TRAILER is the filename found on the last entry of a cpio archive
@@ -82,9 +83,14 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	}
 
 	// Read filename
-	buf := make([]byte, hdr.namesize)
-	if _, err = io.ReadFull(cs.stream, buf); err != nil {
-		return nil, noEOF(err)
+	if hdr.namesize < 1 {
+		return nil, errors.New("invalid cpio header: missing filename")
+	}
+	buf, err := io.ReadAll(io.LimitReader(cs.stream, int64(hdr.namesize)))
+	if err != nil {
+		return nil, err
+	} else if len(buf) != hdr.namesize {
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	filename := string(buf[:len(buf)-1])
@@ -125,6 +131,9 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 		return nil, fmt.Errorf("stripped cpio refers to invalid file index %d", hdr.index)
 	}
 	size := cs.sizes[hdr.index]
+	if size < 0 || size > math.MaxInt64-cs.stream.curPos-3 {
+		return nil, fmt.Errorf("invalid size for file index %d", hdr.index)
+	}
 	cs.nextPos = pad64(cs.stream.curPos + size)
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
diff --git a/cpio/header.go b/cpio/header.go
index 89af114..a510e57 100644
--- a/cpio/header.go
+++ b/cpio/header.go
@@ -63,7 +63,7 @@ func (br *binaryReader) Read16(buf *int) error {
 	if _, err := io.ReadFull(br.r, bb); err != nil {
 		return err
 	}
-	i, err := strconv.ParseInt(string(bb), 16, 0)
+	i, err := strconv.ParseUint(string(bb), 16, 32)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b8ba9671037fe77d2fe96c4ef7f519b6d30e4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 03/24] fix: set Filesize64 for entries of stripped archives

---
 cpio/cpio.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index d07ffb3..0ee10a6 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -135,6 +135,7 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 		return nil, fmt.Errorf("invalid size for file index %d", hdr.index)
 	}
 	cs.nextPos = pad64(cs.stream.curPos + size)
+	hdr.size64 = size
 	payload, err := newFileStream(cs.stream, size)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 86b5c931c7367c9ab1d43be5b9384c58f4f481ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 04/24] fix: do not panic on inconsistent headers

Check tag offsets and counts against the header data, directory indexes and
the lengths of the parallel file arrays, and tolerate empty string tags. Sizes
in the header no longer decide how much memory is allocated up front.
---
 header.go     | 43 ++++++++++++++++++++++++++++++++++++++++---
 signatures.go |  4 ++--
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index 5894a58..33753c3 100644
--- a/header.go
+++ b/header.go
@@ -31,6 +31,12 @@ import (
 
 const introMagic = 0x8eade801
 
+// limits that RPM itself imposes on a header
+const (
+	maxHeaderEntries = 0xffff
+	maxHeaderSize    = 0x0fffffff
+)
+
 type entry struct {
 	dataType, count int32
 	contents        []byte
@@ -67,9 +73,13 @@ var typeSizes = map[int32]int{
 }
 
 func readExact(f io.Reader, n int) ([]byte, error) {
-	buf := make([]byte, n)
-	_, err := io.ReadFull(f, buf)
-	return buf, err
+	// grow with the data that is really there instead of trusting n
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, f, int64(n))
+	if err == io.EOF && buf.Len() > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
 }
 
 func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, sigBlock bool) (*rpmHeader, error) {
@@ -84,6 +94,9 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 	if intro.Magic != introMagic {
 		return nil, fmt.Errorf("bad magic for header")
 	}
+	if intro.Entries > maxHeaderEntries || intro.Size > maxHeaderSize {
+		return nil, fmt.Errorf("RPM header is too big")
+	}
 	// read entries
 	entryTable, err := readExact(f, int(intro.Entries*16))
 	if err != nil {
@@ -116,10 +129,16 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		if err := binary.Read(buf, binary.BigEndian, &tag); err != nil {
 			return nil, err
 		}
+		if tag.Offset < 0 || int(tag.Offset) > len(data) || tag.Count < 0 || int(tag.Count) > len(data) {
+			return nil, fmt.Errorf("tag %d is out of range", tag.Tag)
+		}
 		typeSize, ok := typeSizes[tag.DataType]
 		var end int
 		if ok {
 			end = int(tag.Offset) + typeSize*int(tag.Count)
+			if end > len(data) {
+				return nil, fmt.Errorf("tag %d is truncated", tag.Tag)
+			}
 		} else {
 			// String types are null-terminated
 			end = int(tag.Offset)
@@ -194,8 +213,14 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(dirIdxs) < len(baseNames) {
+			return nil, fmt.Errorf("too few directory indexes in tag %d", DIRINDEXES)
+		}
 		paths := make([]string, 0, len(baseNames))
 		for i, base := range baseNames {
+			if uint64(dirIdxs[i]) >= uint64(len(dirs)) {
+				return nil, fmt.Errorf("directory index %d out of range in tag %d", dirIdxs[i], DIRINDEXES)
+			}
 			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))
 		}
 		return paths, nil
@@ -371,6 +396,9 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(name) == 0 || len(version) == 0 || len(release) == 0 || len(arch) == 0 {
+		return nil, errors.New("RPM name, version, release or architecture is empty")
+	}
 	return &NEVRA{
 		Name:    name[0],
 		Epoch:   strconv.FormatUint(epoch[0], 10),
@@ -434,6 +462,15 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 		inodes = make([]uint32, len(paths))
 	}
 
+	for _, n := range []int{
+		len(fileSizes), len(fileUserName), len(fileGroupName), len(fileFlags), len(fileMtimes),
+		len(fileDigests), len(fileModes), len(linkTos), len(devices), len(inodes),
+	} {
+		if n < len(paths) {
+			return nil, fmt.Errorf("too few file attributes: have %d, need %d", n, len(paths))
+		}
+	}
+
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
 		files[i] = &fileInfo{
diff --git a/signatures.go b/signatures.go
index 4678155..58858cc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -90,7 +90,7 @@ func insertSignatures(sigHeader *rpmHeader, sigPgp, sigRsa []byte) {
 
 func getSha1(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA1)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
@@ -98,7 +98,7 @@ func getSha1(sigHeader *rpmHeader) string {
 
 func getSha256(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA256)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
-- 
2.43.0


From 17606b49860f9b71a585354df550fd36dc87dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 05/24] fix: stop decompressors on every error path of payload
 readers

An unusable file list, an entry that is not in it, and the deprecated
PayloadReader left the decompressor running. Reading on after an error now
repeats the error.
---
 cpio/reader.go | 32 ++++++++++++++++++++++++++------
 payload.go     | 20 ++++++++++++++++++--
 rpmutils.go    | 11 ++++++++---
 3 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/cpio/reader.go b/cpio/reader.go
index cb08e69..6940ee7 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -22,7 +22,8 @@ import "io"
 type Reader struct {
 	stream *CpioStream
 	cur    *CpioEntry
-	done   bool
+	closer io.Closer
+	err    error
 }
 
 // NewReader starts reading a cpio archive stream
@@ -45,23 +46,42 @@ func NewReaderWithSizes(stream io.Reader, sizes []int64) *Reader {
 //
 // Returns io.EOF upon encountering the archive trailer.
 func (r *Reader) Next() (*Cpio_newc_header, error) {
-	if r.done {
-		return nil, io.EOF
+	if r.err != nil {
+		return nil, r.err
 	}
 	ent, err := r.stream.ReadNextEntry()
 	if err != nil {
-		return nil, err
+		return nil, r.end(err)
 	} else if ent.Header.filename == TRAILER {
-		r.done = true
-		return nil, io.EOF
+		return nil, r.end(io.EOF)
 	}
 	r.cur = ent
 	return r.cur.Header, nil
 }
 
+// CloseAtEnd makes Next close c once it reports an error or io.EOF, after which
+// nothing more can be read.
+func (r *Reader) CloseAtEnd(c io.Closer) {
+	r.closer = c
+}
+
+// end makes err the result of all further calls
+func (r *Reader) end(err error) error {
+	r.err = err
+	if r.closer != nil {
+		r.closer.Close()
+	}
+	return err
+}
+
 // Read bytes from the file returned by the preceding call to Next().
 //
 // Returns io.EOF when the current file has been read in its entirety.
 func (r *Reader) Read(p []byte) (n int, err error) {
+	if r.err != nil {
+		return 0, r.err
+	} else if r.cur == nil {
+		return 0, io.EOF
+	}
 	return r.cur.payload.Read(p)
 }
diff --git a/payload.go b/payload.go
index ca489b2..10c1e5b 100644
--- a/payload.go
+++ b/payload.go
@@ -43,6 +43,7 @@ type payloadReader struct {
 	fileMap map[string]int
 	isLink  []bool
 	index   int
+	err     error
 }
 
 func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
@@ -82,14 +83,26 @@ func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
 // Read() can be used to read the contents of the file. Returns io.EOF when all
 // files have been consumed.
 func (pr *payloadReader) Next() (FileInfo, error) {
-	hdr, err := pr.cr.Next()
+	if pr.err != nil {
+		return nil, pr.err
+	}
+	info, err := pr.next()
 	if err != nil {
+		pr.err = err
 		// close decompressor on EOF, zstd in particular leaks goroutines otherwise
 		if c, ok := pr.stream.(io.Closer); ok {
 			c.Close()
 		}
 		return nil, err
 	}
+	return info, nil
+}
+
+func (pr *payloadReader) next() (FileInfo, error) {
+	hdr, err := pr.cr.Next()
+	if err != nil {
+		return nil, err
+	}
 	var index int
 	if hdr.IsStripped() {
 		index = hdr.Index()
@@ -113,6 +126,9 @@ func (pr *payloadReader) Next() (FileInfo, error) {
 
 // Read bytes from the file returned by the preceding call to Next()
 func (pr *payloadReader) Read(d []byte) (int, error) {
+	if pr.err != nil {
+		return 0, pr.err
+	}
 	return pr.cr.Read(d)
 }
 
@@ -120,5 +136,5 @@ func (pr *payloadReader) Read(d []byte) (int, error) {
 // subsequent file with the same FileInfo.Inode and for which IsLink() returns
 // false will have the contents.
 func (pr *payloadReader) IsLink() bool {
-	return pr.isLink[pr.index]
+	return pr.index < len(pr.isLink) && pr.isLink[pr.index]
 }
diff --git a/rpmutils.go b/rpmutils.go
index cbe3100..08573d9 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -75,16 +75,21 @@ func (rpm *Rpm) PayloadReader() (*cpio.Reader, error) {
 	if err != nil {
 		return nil, err
 	}
-	return cpio.NewReader(pld), nil
+	cr := cpio.NewReader(pld)
+	if c, ok := pld.(io.Closer); ok {
+		cr.CloseAtEnd(c)
+	}
+	return cr, nil
 }
 
 // PayloadReaderExtended accesses payload file contents sequentially
 func (rpm *Rpm) PayloadReaderExtended() (PayloadReader, error) {
-	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
+	// before starting the decompressor, which nobody would stop again
+	files, err := rpm.Header.GetFiles()
 	if err != nil {
 		return nil, err
 	}
-	files, err := rpm.Header.GetFiles()
+	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3d746f2ab2a4596a5756eaba9dda48a4a7e8a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 06/24] fix: keep cpio.Extract inside of the destination

Symbolic links from the archive or already present were followed, so that
directories and files could be created and overwritten anywhere, existing hard
links were written through, and an existing pipe blocked. Resolve the parent
directory, insist that it is below the destination, and replace existing
non-directories, which also makes it possible to extract symbolic links, pipes
and hard links a second time. The destinations "." and "/" work now.
---
 cpio/extract.go | 80 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 77 insertions(+), 3 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index ec4931c..7946dcd 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -64,15 +64,26 @@ func Extract(rs io.Reader, dest string) error {
 			target = target[3:]
 		}
 		target = filepath.Join(dest, filepath.FromSlash(target))
-		if !strings.HasPrefix(target, dest+string(filepath.Separator)) && dest != target {
+		rel, err := filepath.Rel(dest, target)
+		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
 		// Create the parent directory if it doesn't exist.
-		parent := filepath.Dir(target)
-		if err := os.MkdirAll(parent, 0755); err != nil {
+		if err := os.MkdirAll(dest, 0755); err != nil {
 			return err
 		}
+		if rel == "." {
+			if entry.Header.Mode()&^07777 != S_ISDIR {
+				return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
+			}
+			continue
+		}
+		parent, err := makeParent(dest, filepath.Dir(rel))
+		if err != nil {
+			return err
+		}
+		target = filepath.Join(parent, filepath.Base(rel))
 		// FIXME: Need a makedev implementation in go.
 
 		switch entry.Header.Mode() &^ 07777 {
@@ -83,11 +94,17 @@ func Extract(rs io.Reader, dest string) error {
 			// FIXME: skipping due to lack of makedev.
 			continue
 		case S_ISDIR:
+			if err := removeExisting(target); err != nil {
+				return err
+			}
 			m := os.FileMode(entry.Header.Mode()).Perm()
 			if err := os.Mkdir(target, m); err != nil && !os.IsExist(err) {
 				return err
 			}
 		case S_ISFIFO:
+			if err := removeExisting(target); err != nil {
+				return err
+			}
 			if err := fileutil.Mkfifo(target, uint32(entry.Header.Mode())); err != nil {
 				return err
 			}
@@ -96,6 +113,9 @@ func Extract(rs io.Reader, dest string) error {
 			if _, err := entry.payload.Read(buf); err != nil {
 				return err
 			}
+			if err := removeExisting(target); err != nil {
+				return err
+			}
 			if err := os.Symlink(string(buf), target); err != nil {
 				return err
 			}
@@ -111,6 +131,9 @@ func Extract(rs io.Reader, dest string) error {
 				continue
 			}
 
+			if err := removeExisting(target); err != nil {
+				return err
+			}
 			// FIXME: Set permissions on files when creating.
 			f, err := os.Create(target)
 			if err != nil {
@@ -135,6 +158,12 @@ func Extract(rs io.Reader, dest string) error {
 				}
 
 				for _, t := range l {
+					if t == target {
+						continue
+					}
+					if err := removeExisting(t); err != nil {
+						return err
+					}
 					if err := os.Link(target, t); err != nil {
 						return err
 					}
@@ -148,3 +177,48 @@ func Extract(rs io.Reader, dest string) error {
 
 	return nil
 }
+
+// makeParent creates the directory dir below dest and returns its path with all
+// symbolic links resolved. It fails if that is not inside of dest.
+func makeParent(dest, dir string) (string, error) {
+	root, err := filepath.EvalSymlinks(dest)
+	if err != nil {
+		return "", err
+	}
+	cur := root
+	if dir == "." {
+		return cur, nil
+	}
+	for _, name := range strings.Split(dir, string(filepath.Separator)) {
+		cur = filepath.Join(cur, name)
+		if err := os.Mkdir(cur, 0755); err == nil {
+			continue
+		} else if !os.IsExist(err) {
+			return "", err
+		}
+		if cur, err = filepath.EvalSymlinks(cur); err != nil {
+			return "", err
+		}
+		rel, err := filepath.Rel(root, cur)
+		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return "", fmt.Errorf("cpio path %q leads out of the destination", filepath.Join(dir, name))
+		}
+	}
+	return cur, nil
+}
+
+// removeExisting removes whatever is in the way of creating target, except for
+// a directory. Writing into an existing file could change other names of it or
+// the target of a symbolic link, or block on a pipe.
+func removeExisting(target string) error {
+	info, err := os.Lstat(target)
+	if os.IsNotExist(err) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	if info.IsDir() {
+		return nil
+	}
+	return os.Remove(target)
+}
-- 
2.43.0


From c4f6f5d25689ab46eba6d553867e09365276fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 07/24] fix: read the whole target of a symbolic link in
 cpio.Extract

A short read gave a wrong target, and the size in the header decided how much
memory was allocated.
---
 cpio/extract.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 7946dcd..ea01ad1 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -109,8 +109,8 @@ func Extract(rs io.Reader, dest string) error {
 				return err
 			}
 		case S_ISLNK:
-			buf := make([]byte, entry.Header.filesize)
-			if _, err := entry.payload.Read(buf); err != nil {
+			buf, err := io.ReadAll(entry.payload)
+			if err != nil {
 				return err
 			}
 			if err := removeExisting(target); err != nil {
-- 
2.43.0


From 3735a423d2eb7b30cc79274467e148cc1cb97dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:29 +0000
Subject: [PATCH 08/24] fix: close the file when extracting it fails

---
 cpio/extract.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpio/extract.go b/cpio/extract.go
index ea01ad1..16604c4 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -141,9 +141,11 @@ func Extract(rs io.Reader, dest string) error {
 			}
 			written, err := io.Copy(f, entry.payload)
 			if err != nil {
+				f.Close()
 				return err
 			}
 			if written != int64(entry.Header.filesize) {
+				f.Close()
 				return fmt.Errorf("short write")
 			}
 			if err := f.Close(); err != nil {
-- 
2.43.0


From 5ba3c25919b29353006be534ce62a30531339cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 09/24] fix: extract hard links to empty files and tell devices
 apart

A group of links without contents was dropped, and equal inode numbers on
different devices were mixed up.
---
 cpio/extract.go | 71 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 14 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 16604c4..222e9f9 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -44,7 +44,8 @@ const (
 // Extract the contents of a cpio stream from r to the destination directory dest
 func Extract(rs io.Reader, dest string) error {
 	dest = filepath.Clean(filepath.FromSlash(dest))
-	linkMap := make(map[int][]string)
+	linkMap := make(map[fileID][]string)
+	var linkOrder []fileID
 
 	stream := NewCpioStream(rs)
 
@@ -122,12 +123,14 @@ func Extract(rs io.Reader, dest string) error {
 		case S_ISREG:
 			// save hardlinks until after the taget is written
 			if entry.Header.nlink > 1 && entry.Header.filesize == 0 {
-				l, ok := linkMap[entry.Header.ino]
+				id := getFileID(entry.Header)
+				l, ok := linkMap[id]
 				if !ok {
 					l = make([]string, 0)
+					linkOrder = append(linkOrder, id)
 				}
 				l = append(l, target)
-				linkMap[entry.Header.ino] = l
+				linkMap[id] = l
 				continue
 			}
 
@@ -154,22 +157,15 @@ func Extract(rs io.Reader, dest string) error {
 
 			// Create hardlinks after the file content is written.
 			if entry.Header.nlink > 1 && entry.Header.filesize > 0 {
-				l, ok := linkMap[entry.Header.ino]
+				l, ok := linkMap[getFileID(entry.Header)]
 				if !ok {
 					return fmt.Errorf("hardlinks missing")
 				}
 
-				for _, t := range l {
-					if t == target {
-						continue
-					}
-					if err := removeExisting(t); err != nil {
-						return err
-					}
-					if err := os.Link(target, t); err != nil {
-						return err
-					}
+				if err := makeLinks(target, l); err != nil {
+					return err
 				}
+				delete(linkMap, getFileID(entry.Header))
 			}
 		default:
 			return fmt.Errorf("unknown file mode 0%o for %s",
@@ -177,6 +173,53 @@ func Extract(rs io.Reader, dest string) error {
 		}
 	}
 
+	// Links that never got any contents belong to empty files.
+	for _, id := range linkOrder {
+		l, ok := linkMap[id]
+		if !ok {
+			continue
+		}
+		delete(linkMap, id)
+		if err := removeExisting(l[0]); err != nil {
+			return err
+		}
+		f, err := os.Create(l[0])
+		if err != nil {
+			return err
+		}
+		if err := f.Close(); err != nil {
+			return err
+		}
+		if err := makeLinks(l[0], l[1:]); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// fileID tells which names in an archive are links to the same file
+type fileID struct {
+	devmajor, devminor, ino int
+}
+
+func getFileID(hdr *Cpio_newc_header) fileID {
+	return fileID{hdr.devmajor, hdr.devminor, hdr.ino}
+}
+
+// makeLinks links the existing file target to other names
+func makeLinks(target string, names []string) error {
+	for _, t := range names {
+		if t == target {
+			continue
+		}
+		if err := removeExisting(t); err != nil {
+			return err
+		}
+		if err := os.Link(target, t); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 61190cddb85aedc34bb3ac9476e1873be0402b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 10/24] fix: default unset fields of SignatureOptions

The documentation promises SHA-256 and the current time, but options with only
one of the two set panicked or made a signature dated year 1.
---
 signatures.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 58858cc..f7caedc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -39,14 +39,14 @@ type SignatureOptions struct {
 }
 
 func (opts *SignatureOptions) hash() crypto.Hash {
-	if opts != nil {
+	if opts != nil && opts.Hash != 0 {
 		return opts.Hash
 	}
 	return crypto.SHA256
 }
 
 func (opts *SignatureOptions) creationTime() time.Time {
-	if opts != nil {
+	if opts != nil && !opts.CreationTime.IsZero() {
 		return opts.CreationTime
 	}
 	return time.Now()
-- 
2.43.0


From 1ae0490f849466e6463d0f6c2d16e9e5f26020d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 11/24] fix: recognise hard links before signing in place

FileInfo.Sys holds a syscall.Stat_t, so HasLinks never saw a link count and
signing in place changed all the other names of the package.
---
 fileutil/fileutil_unix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileutil/fileutil_unix.go b/fileutil/fileutil_unix.go
index e5a0f72..aa5a129 100644
--- a/fileutil/fileutil_unix.go
+++ b/fileutil/fileutil_unix.go
@@ -21,12 +21,14 @@ package fileutil
 
 import (
 	"os"
+	"syscall"
+
 	"golang.org/x/sys/unix"
 )
 
 // HasLinks returns true if the given file has Nlink > 1
 func HasLinks(info os.FileInfo) bool {
-	stat, ok := info.Sys().(*unix.Stat_t)
+	stat, ok := info.Sys().(*syscall.Stat_t)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From c01cd715986b6bb8e08ea5db205380de3c3b544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 12/24] fix: report errors while replacing the output and keep
 the old file

The deferred function looked at a shadowed error, so that after a failed write
the partial temporary file still replaced the output, and errors from closing
and renaming were lost. Write the contents out before renaming, so that they
survive a power loss.
---
 signatures.go | 49 +++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/signatures.go b/signatures.go
index f7caedc..674b199 100644
--- a/signatures.go
+++ b/signatures.go
@@ -225,7 +225,7 @@ func RewriteWithSignatures(infile *os.File, outpath string, sigPgp, sigRsa []byt
 	return header, nil
 }
 
-func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
+func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error) {
 	delete(header.sigHeader.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
 	ininfo, err := infile.Stat()
 	if err != nil {
@@ -235,38 +235,47 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
-		outinfo, err := os.Lstat(outpath)
-		if err == nil && canOverwrite(ininfo, outinfo) {
+		outinfo, statErr := os.Lstat(outpath)
+		if statErr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
 			if err != nil || ok {
 				return err
 			}
 			// in-place didn't work; fallback to rewrite
-		} else if err == nil && !outinfo.Mode().IsRegular() {
+		} else if statErr == nil && !outinfo.Mode().IsRegular() {
 			// pipe or something else. open for writing.
-			outfile, err := os.Create(outpath)
-			if err != nil {
-				return err
+			outfile, openErr := os.Create(outpath)
+			if openErr != nil {
+				return openErr
 			}
-			defer outfile.Close()
+			defer func() {
+				if closeErr := outfile.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 			outstream = outfile
 		}
 		if outstream == nil {
 			// write-rename
-			tempfile, err := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
-			if err != nil {
-				return err
+			tempfile, tempErr := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
+			if tempErr != nil {
+				return tempErr
 			}
 			defer func() {
-				if err != nil {
-					os.Remove(tempfile.Name())
-				} else {
+				if err == nil {
 					_ = tempfile.Chmod(0644)
-					if err = tempfile.Close(); err != nil {
-						return
-					}
+					// the contents must be on disk before the name is
+					err = tempfile.Sync()
+				}
+				if closeErr := tempfile.Close(); err == nil {
+					err = closeErr
+				}
+				if err == nil {
 					err = os.Rename(tempfile.Name(), outpath)
 				}
+				if err != nil {
+					os.Remove(tempfile.Name())
+				}
 			}()
 			outstream = tempfile
 		}
@@ -288,7 +297,11 @@ func writeInPlace(path string, header *RpmHeader) (ok bool, err error) {
 	if err != nil {
 		return
 	}
-	defer outfile.Close()
+	defer func() {
+		if closeErr := outfile.Close(); err == nil && closeErr != nil {
+			ok, err = false, closeErr
+		}
+	}()
 	n, err := outfile.Write(blob)
 	if err != nil {
 		return false, err
-- 
2.43.0


From de790e886166c5c3787d5a7232c641b371604b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 13/24] fix: do not truncate the input when the output is a
 link to it

A symbolic link as the output path was opened for writing, which emptied the
package that was about to be copied. Replace the file that it leads to.
---
 signatures.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/signatures.go b/signatures.go
index 674b199..ffa2eb0 100644
--- a/signatures.go
+++ b/signatures.go
@@ -23,6 +23,8 @@ import (
 	"io"
 	"os"
 	"path"
+	"path/filepath"
+	"syscall"
 	"time"
 
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
@@ -235,7 +237,13 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
+		if outpath, err = resolveOutput(outpath); err != nil {
+			return err
+		}
 		outinfo, statErr := os.Lstat(outpath)
+		if statErr != nil && !os.IsNotExist(statErr) {
+			return statErr
+		}
 		if statErr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
 			if err != nil || ok {
@@ -283,6 +291,40 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 	return writeRpm(infile, outstream, header.sigHeader)
 }
 
+// resolveOutput follows a symbolic link to the regular file that it names or
+// would create, so that the file is replaced and not the one it is being made
+// from truncated. Links to pipes and the like are left alone.
+func resolveOutput(outpath string) (string, error) {
+	for i := 0; i < 40; i++ {
+		linfo, err := os.Lstat(outpath)
+		if os.IsNotExist(err) {
+			return outpath, nil
+		} else if err != nil {
+			return "", err
+		} else if linfo.Mode()&os.ModeSymlink == 0 {
+			return outpath, nil
+		}
+		if info, err := os.Stat(outpath); err == nil && !info.Mode().IsRegular() {
+			return outpath, nil
+		} else if err == nil {
+			return filepath.EvalSymlinks(outpath)
+		} else if !os.IsNotExist(err) {
+			return "", err
+		}
+		target, err := os.Readlink(outpath)
+		if err != nil {
+			return "", err
+		}
+		if !path.IsAbs(target) {
+			// not cleaned: the directory may itself be a symbolic link
+			dir, _ := path.Split(outpath)
+			target = dir + target
+		}
+		outpath = target
+	}
+	return "", &os.PathError{Op: "open", Path: outpath, Err: syscall.ELOOP}
+}
+
 func writeInPlace(path string, header *RpmHeader) (ok bool, err error) {
 	blob, err := header.DumpSignatureHeader(true)
 	if err != nil {
-- 
2.43.0


From a6f149234451d8e9e2886e32a3bef9b839ff8edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 14/24] fix: do not fail on empty reads in front of xz and lzma
 decoders

A stream may return no bytes and no error, which these decoders take for an
error.
---
 uncompress.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/uncompress.go b/uncompress.go
index 90b8622..6dff298 100644
--- a/uncompress.go
+++ b/uncompress.go
@@ -67,6 +67,11 @@ func uncompressRpmPayloadReader(r io.Reader, hdr *RpmHeader) (io.Reader, error)
 		r = io.MultiReader(bytes.NewReader(b), r)
 	}
 
+	if compression == "lzma" || compression == "xz" {
+		// these decoders take a read that returns no bytes for an error
+		r = nonEmptyReader{r}
+	}
+
 	switch compression {
 	case "zstd":
 		return newZstdReader(r)
@@ -93,3 +98,17 @@ type noCloseWrapper struct {
 func (w noCloseWrapper) Read(d []byte) (int, error) {
 	return w.r.Read(d)
 }
+
+// nonEmptyReader repeats reads that return neither bytes nor an error
+type nonEmptyReader struct {
+	r io.Reader
+}
+
+func (w nonEmptyReader) Read(d []byte) (n int, err error) {
+	for i := 0; i < 100; i++ {
+		if n, err = w.r.Read(d); n != 0 || err != nil || len(d) == 0 {
+			return n, err
+		}
+	}
+	return 0, io.ErrNoProgress
+}
-- 
2.43.0


From cf0a4f69866c24113998d69288ca4c6e7f6207f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 15/24] fix: do not defer hard links below something that is
 not a directory

---
 cpio/extract.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpio/extract.go b/cpio/extract.go
index 222e9f9..60dad93 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -23,6 +23,7 @@ import (
 	"path"
 	"path/filepath"
 	"strings"
+	"syscall"
 
 	"github.com/sassoftware/go-rpmutils/fileutil"
 )
@@ -248,6 +249,14 @@ func makeParent(dest, dir string) (string, error) {
 		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			return "", fmt.Errorf("cpio path %q leads out of the destination", filepath.Join(dir, name))
 		}
+		// anything but a directory could still be replaced by a symbolic link
+		// before a deferred hard link is made below it
+		info, err := os.Lstat(cur)
+		if err != nil {
+			return "", err
+		} else if !info.IsDir() {
+			return "", &os.PathError{Op: "mkdir", Path: cur, Err: syscall.ENOTDIR}
+		}
 	}
 	return cur, nil
 }
-- 
2.43.0


From 8ddcdcfdf495ed67708159a1cea889f6ae6dc5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 16/24] fix: check header digests of length one

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 33753c3..8c206b6 100644
--- a/header.go
+++ b/header.go
@@ -113,7 +113,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
 	// Check hash if it was specified
-	if len(hash) > 1 {
+	if len(hash) > 0 {
 		h := hashType.New()
 		h.Write(origBuf.Bytes())
 		calculated := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From 5a5c1fa1c2a898184bab677313b3e126af79706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:27 +0000
Subject: [PATCH 17/24] fix: do not hand out what bzip2 makes of a source that
 failed

---
 uncompress.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/uncompress.go b/uncompress.go
index 6dff298..43e9d40 100644
--- a/uncompress.go
+++ b/uncompress.go
@@ -78,7 +78,7 @@ func uncompressRpmPayloadReader(r io.Reader, hdr *RpmHeader) (io.Reader, error)
 	case "gzip":
 		return gzip.NewReader(r)
 	case "bzip2":
-		return bzip2.NewReader(r), nil
+		return wholeReader{bzip2.NewReader(r)}, nil
 	case "lzma":
 		return lzma.NewReader(r)
 	case "xz":
@@ -99,6 +99,21 @@ func (w noCloseWrapper) Read(d []byte) (int, error) {
 	return w.r.Read(d)
 }
 
+// wholeReader drops the bytes that come with an error. The bzip2 decoder goes
+// on with zeros when its source fails inside of a block, and returns what it
+// made of them together with the error.
+type wholeReader struct {
+	r io.Reader
+}
+
+func (w wholeReader) Read(d []byte) (int, error) {
+	n, err := w.r.Read(d)
+	if err != nil && err != io.EOF {
+		n = 0
+	}
+	return n, err
+}
+
 // nonEmptyReader repeats reads that return neither bytes nor an error
 type nonEmptyReader struct {
 	r io.Reader
-- 
2.43.0


From f3e404761ccef8e1bee48cc848f1d7fc6aab7a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 18/24] fix: open an output pipe for writing only

---
 signatures.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signatures.go b/signatures.go
index ffa2eb0..ad1a0fc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -252,7 +252,9 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 			// in-place didn't work; fallback to rewrite
 		} else if statErr == nil && !outinfo.Mode().IsRegular() {
 			// pipe or something else. open for writing.
-			outfile, openErr := os.Create(outpath)
+			// not for reading as well: a pipe that is its own reader neither
+			// waits for the real one nor notices that it is gone
+			outfile, openErr := os.OpenFile(outpath, os.O_WRONLY, 0)
 			if openErr != nil {
 				return openErr
 			}
-- 
2.43.0


From 60fce9ba0f67019cfbfbac412a072aff322b8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:58 +0000
Subject: [PATCH 19/24] fix: make the replacement file in the directory of the
 output

path.Dir resolves ".." lexically, so for an output like link/../out.rpm
the temporary file went to another directory than the one it is renamed
into, which may be on another file system.
---
 signatures.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/signatures.go b/signatures.go
index ad1a0fc..3a91ebc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -267,7 +267,12 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 		}
 		if outstream == nil {
 			// write-rename
-			tempfile, tempErr := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
+			// path.Dir would resolve ".." without regard to symbolic links
+			dir, base := path.Split(outpath)
+			if dir == "" {
+				dir = "."
+			}
+			tempfile, tempErr := os.CreateTemp(dir, base)
 			if tempErr != nil {
 				return tempErr
 			}
-- 
2.43.0


From 75f6428f19c892b3a3d86d3f18b4e0d0190ec49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 20/24] fix: report the key that verifies a signature

KeyId and KeyFingerprint came from the signature, whose unsigned part may
name another key, or else were those of the primary key where a subkey had
made the signature.
---
 verify_v3.go |  2 +-
 verify_v4.go | 14 ++++++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/verify_v3.go b/verify_v3.go
index 48bb572..9f48e29 100644
--- a/verify_v3.go
+++ b/verify_v3.go
@@ -28,7 +28,7 @@ func parseSignatureMaybeV3(genpkt packet.Packet, knownKeys openpgp.EntityList) (
 		if len(keys) == 0 || keys[0].PublicKey == nil {
 			return KeyNotFoundError{KeyID: pkt.IssuerKeyId}
 		}
-		setEntity(sig, keys[0].Entity)
+		setEntity(sig, keys[0].Entity, keys[0].PublicKey)
 		return keys[0].PublicKey.VerifySignatureV3(h, pkt)
 	}
 	return sig, nil
diff --git a/verify_v4.go b/verify_v4.go
index 38d02d6..b166301 100644
--- a/verify_v4.go
+++ b/verify_v4.go
@@ -37,7 +37,7 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 			return nil
 		}
 		if entity, key := findKey(pkt, knownKeys); key != nil {
-			setEntity(sig, entity)
+			setEntity(sig, entity, key)
 			return key.VerifySignature(h, pkt)
 		}
 		return KeyNotFoundError{
@@ -49,14 +49,12 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 }
 
 // set identity attributes on signature
-func setEntity(sig *Signature, entity *openpgp.Entity) {
+func setEntity(sig *Signature, entity *openpgp.Entity, key *packet.PublicKey) {
 	sig.Signer = entity
-	if sig.KeyId == 0 {
-		sig.KeyId = entity.PrimaryKey.KeyId
-	}
-	if sig.KeyFingerprint == nil {
-		sig.KeyFingerprint = entity.PrimaryKey.Fingerprint
-	}
+	// the key that it is checked with, which may be a subkey. What the signature
+	// itself says is not necessarily covered by it.
+	sig.KeyId = key.KeyId
+	sig.KeyFingerprint = key.Fingerprint
 	if identity := entity.PrimaryIdentity(); identity != nil {
 		sig.PrimaryName = identity.Name
 	}
-- 
2.43.0


From 35e5d3f6f030064320c434d26e738886b64e3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:54 +0000
Subject: [PATCH 21/24] fix: reject headers whose tags share data

The signature header is written with a copy of the data for each tag, so
that a small package took gigabytes to sign.
---
 header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/header.go b/header.go
index 8c206b6..f950f17 100644
--- a/header.go
+++ b/header.go
@@ -124,6 +124,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 	// parse entries
 	ents := make(map[int]entry)
 	buf := bytes.NewReader(entryTable)
+	total := 0
 	for i := 0; i < int(intro.Entries); i++ {
 		var tag headerTag
 		if err := binary.Read(buf, binary.BigEndian, &tag); err != nil {
@@ -150,6 +151,11 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 				end += next + 1
 			}
 		}
+		// no two tags share data, so what they hold is no more than there is
+		total += end - int(tag.Offset)
+		if total > len(data) {
+			return nil, fmt.Errorf("tag %d overlaps with others", tag.Tag)
+		}
 		ents[int(tag.Tag)] = entry{
 			dataType: tag.DataType,
 			count:    tag.Count,
-- 
2.43.0


From f280c17726e7f854eafed87a701a20097818c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:55 +0000
Subject: [PATCH 22/24] fix: reject file names longer than a path can be

The name of a directory is stored once and repeated for each of its files,
so that the names of a small header took gigabytes.
---
 header.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/header.go b/header.go
index f950f17..82a0cc0 100644
--- a/header.go
+++ b/header.go
@@ -37,6 +37,9 @@ const (
 	maxHeaderSize    = 0x0fffffff
 )
 
+// no file with a longer name can be installed
+const maxPathLength = 4096
+
 type entry struct {
 	dataType, count int32
 	contents        []byte
@@ -227,7 +230,11 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 			if uint64(dirIdxs[i]) >= uint64(len(dirs)) {
 				return nil, fmt.Errorf("directory index %d out of range in tag %d", dirIdxs[i], DIRINDEXES)
 			}
-			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))
+			dir := dirs[dirIdxs[i]]
+			if len(dir)+len(base) > maxPathLength {
+				return nil, fmt.Errorf("name of file %d is too long", i)
+			}
+			paths = append(paths, path.Join(dir, base))
 		}
 		return paths, nil
 	}
-- 
2.43.0


From 7f64bc9392948a0154d4ce605ae079787886499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:09 +0000
Subject: [PATCH 23/24] fix: bound what the names of files take together

A directory with a name just short of the limit still made a header of a
megabyte take gigabytes. The names of a real package take a few times of what
its header does.
---
 header.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/header.go b/header.go
index 82a0cc0..cc4f079 100644
--- a/header.go
+++ b/header.go
@@ -40,6 +40,9 @@ const (
 // no file with a longer name can be installed
 const maxPathLength = 4096
 
+// the attributes of a file take more than this part of the longest name
+const maxPathsRatio = 64
+
 type entry struct {
 	dataType, count int32
 	contents        []byte
@@ -225,6 +228,7 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 		if len(dirIdxs) < len(baseNames) {
 			return nil, fmt.Errorf("too few directory indexes in tag %d", DIRINDEXES)
 		}
+		total := 0
 		paths := make([]string, 0, len(baseNames))
 		for i, base := range baseNames {
 			if uint64(dirIdxs[i]) >= uint64(len(dirs)) {
@@ -234,6 +238,10 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 			if len(dir)+len(base) > maxPathLength {
 				return nil, fmt.Errorf("name of file %d is too long", i)
 			}
+			total += len(dir) + len(base)
+			if total/maxPathsRatio > len(hdr.orig) {
+				return nil, fmt.Errorf("names of files are too long for a header of %d bytes", len(hdr.orig))
+			}
 			paths = append(paths, path.Join(dir, base))
 		}
 		return paths, nil
-- 
2.43.0


From cd0a957b2ce8117e9e24cdf396c1ec9c2fd21919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:19 +0000
Subject: [PATCH 24/24] fix: do not list a package without directory names as
 one without files

Names of files that have no directories are an error, as are directory
indexes that lead nowhere.
---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index cc4f079..7c599a2 100644
--- a/header.go
+++ b/header.go
@@ -436,7 +436,7 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 	paths, err := hdr.GetStrings(OLDFILENAMES)
 	if err != nil {
-		if !errors.As(err, &NoSuchTagError{}) {
+		if _, named := hdr.entries[BASENAMES]; named || !errors.As(err, &NoSuchTagError{}) {
 			return nil, err
 		}
 		// RPM has no files
-- 
2.43.0

