From 9650dab9a534e352694733de6097ea41b392b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 01/35] fix: SliceReader.Read reports EOF only at the end of
 the data

An empty block in the middle of the list, or a zero-length read, was
reported as io.EOF although more data follows.
---
 xls/cfb/slicereader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xls/cfb/slicereader.go b/xls/cfb/slicereader.go
index e6e7aff..3bff1dd 100644
--- a/xls/cfb/slicereader.go
+++ b/xls/cfb/slicereader.go
@@ -16,6 +16,11 @@ type SliceReader struct {
 
 // Read implements the io.Reader interface.
 func (s *SliceReader) Read(b []byte) (int, error) {
+	// skip over empty and fully consumed blocks
+	for s.Index < uint(len(s.Data)) && s.Offset >= uint(len(s.Data[s.Index])) {
+		s.Offset = 0
+		s.Index++
+	}
 	if s.Index >= uint(len(s.Data)) {
 		return 0, io.EOF
 	}
@@ -26,10 +31,9 @@ func (s *SliceReader) Read(b []byte) (int, error) {
 			s.Offset = 0
 			s.Index++
 		}
-		return n, nil
 	}
 
-	return 0, io.EOF
+	return n, nil
 }
 
 var x io.Seeker
-- 
2.43.0


From 4be114286f14cbd32f1946a2bed04c0bd66926ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 02/35] fix: SliceReader.Seek to the end, past the end and
 within the first block

Seeking exactly to the end or beyond it indexed past the block list, seeking
back to 0 from inside the first block underflowed the index, and an empty
stream panicked. Positions outside the stream are now rejected without
moving.
---
 xls/cfb/slicereader.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/xls/cfb/slicereader.go b/xls/cfb/slicereader.go
index 3bff1dd..095dc46 100644
--- a/xls/cfb/slicereader.go
+++ b/xls/cfb/slicereader.go
@@ -49,6 +49,13 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 			sz += int64(len(d))
 		}
 	}
+	if len(s.Data) == 0 {
+		// an empty stream only has a single position
+		if offset != 0 {
+			return -1, errors.New("xls: invalid seek offset")
+		}
+		return 0, nil
+	}
 	if s.Index >= uint(len(s.CSize)) {
 		s.Index = uint(len(s.CSize) - 1)
 		s.Offset = uint(len(s.Data[s.Index]))
@@ -60,9 +67,12 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 		return trueOffset, nil
 	}
 
+	last := len(s.Data) - 1
+	endOffset := s.CSize[last] + int64(len(s.Data[last]))
+
 	switch whence {
 	case io.SeekStart:
-		if offset < 0 {
+		if offset < 0 || offset > endOffset {
 			return -1, errors.New("xls: invalid seek offset")
 		}
 		s.Index = 0
@@ -70,7 +80,7 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 		trueOffset = 0
 
 	case io.SeekEnd:
-		if offset > 0 {
+		if offset > 0 || offset < -endOffset {
 			return -1, errors.New("xls: invalid seek offset")
 		}
 
@@ -80,13 +90,16 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 
 	default:
 		// current position already defined
+		if offset < -trueOffset || offset > endOffset-trueOffset {
+			return -1, errors.New("xls: invalid seek offset")
+		}
 	}
 
 	wantOffset := offset + trueOffset
 	for trueOffset != wantOffset {
 		loOffset := s.CSize[int(s.Index)]
 		hiOffset := s.CSize[int(s.Index)] + int64(len(s.Data[s.Index]))
-		if wantOffset > loOffset && wantOffset < hiOffset {
+		if wantOffset >= loOffset && wantOffset <= hiOffset {
 			s.Offset = uint(wantOffset - loOffset)
 			return wantOffset, nil
 		}
-- 
2.43.0


From 304cbce67138023b3f29a1874de6ff9eb9c12697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 03/35] fix: directory entry names with an empty or negative
 length panicked

---
 xls/cfb/cfb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 2692ba4..ea67278 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -77,7 +77,7 @@ type directory struct {
 }
 
 func (d *directory) String() string {
-	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 {
+	if (d.NameByteLen&1) == 1 || d.NameByteLen < 2 || d.NameByteLen > 64 {
 		return "<invalid utf16 string>"
 	}
 	r16 := utf16.Decode(d.Name[:int(d.NameByteLen)/2])
-- 
2.43.0


From c09a4e6bd7ae30a164678761ea1a5bd7b3cca946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 04/35] fix: sector counts larger than the file or negative
 panicked on load

---
 xls/cfb/cfb.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index ea67278..6968c1f 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -159,6 +159,14 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	numFATentries := (1 << (h.SectorShift - 2))
 	le := binary.LittleEndian
+	secSize := int64(1) << int32(h.SectorShift)
+	// every table sector is stored in the file, so larger counts are corrupt
+	maxSectors := int64(len(d.data)) / secSize
+	if h.NumFATSectors < 0 || int64(h.NumFATSectors) > maxSectors ||
+		h.NumMiniFATSectors < 0 || int64(h.NumMiniFATSectors) > maxSectors ||
+		int64(h.NumDIFATSectors) > maxSectors {
+		return errors.New("xls/cfb: unable to load file")
+	}
 	d.fat = make([]uint32, 0, numFATentries*int(1+d.header.NumFATSectors))
 	d.minifat = make([]uint32, 0, numFATentries*int(1+h.NumMiniFATSectors))
 
-- 
2.43.0


From fd8c3586fc7b1fdcc5286a70122001ee2895a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 05/35] fix: FAT and DIFAT sectors outside the file panicked,
 DIFAT cycles never ended

---
 xls/cfb/cfb.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 6968c1f..8ff0b9f 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -177,7 +177,7 @@ func (d *Document) load(rx io.ReadSeeker) error {
 			break
 		}
 		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
+		if offs+secSize > int64(len(d.data)) {
 			return errors.New("xls/cfb: unable to load file")
 		}
 		sector := d.data[offs:]
@@ -190,8 +190,11 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	if h.NumDIFATSectors > 0 {
 		sid1 := h.FirstDIFATSectorLocation
 
-		for sid1 != secEndOfChain {
+		for n := int32(0); n < h.NumDIFATSectors && sid1 != secEndOfChain; n++ {
 			offs := int64(1+sid1) << int32(h.SectorShift)
+			if offs+secSize > int64(len(d.data)) {
+				return errors.New("xls/cfb: unable to load file")
+			}
 			difatSector := d.data[offs:]
 
 			for i := 0; i < numFATentries-1; i++ {
@@ -202,7 +205,7 @@ func (d *Document) load(rx io.ReadSeeker) error {
 				}
 
 				offs := int64(1+sid2) << int32(h.SectorShift)
-				if offs >= int64(len(d.data)) {
+				if offs+secSize > int64(len(d.data)) {
 					return errors.New("xls/cfb: unable to load file")
 				}
 				sector := d.data[offs:]
-- 
2.43.0


From c35c90c493fb32962f3dc6f911452e458deb2655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 06/35] fix: follow the FAT chain of the mini FAT and read all
 of its sectors

The next mini FAT sector was taken from the bytes after the current sector
instead of the FAT, and reading stopped when the number of entries reached
the number of sectors, so files with more than one mini FAT sector lost
streams or panicked.
---
 xls/cfb/cfb.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 8ff0b9f..cb039a2 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -224,24 +224,23 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	// step 2: read the mini FAT
 	sid := h.FirstMiniFATSectorLocation
-	for sid != secEndOfChain {
+	for n := int32(0); n < h.NumMiniFATSectors && sid != secEndOfChain; n++ {
 		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
+		if offs+secSize > int64(len(d.data)) {
 			return errors.New("xls/cfb: unable to load file")
 		}
 		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
-			sid = le.Uint32(sector)
-			d.minifat = append(d.minifat, sid)
+			sid2 := le.Uint32(sector)
+			d.minifat = append(d.minifat, sid2)
 			sector = sector[4:]
 		}
 
-		if len(d.minifat) >= int(h.NumMiniFATSectors) {
-			break
-		}
-
 		// chain the next mini FAT sector
-		sid = le.Uint32(sector)
+		if int64(sid) >= int64(len(d.fat)) {
+			return errors.New("xls/cfb: unable to load file")
+		}
+		sid = d.fat[sid]
 	}
 
 	// step 3: read the Directory Entries
-- 
2.43.0


From 5859aba8b5311db516604e6c9b32346fd7c5297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 07/35] fix: read the complete directory of a compound file

Only the first four entries of the first directory sector were read, and an
unused entry hid all entries after it.
---
 xls/cfb/cfb.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index cb039a2..0cc240a 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -254,13 +254,33 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 	le := binary.LittleEndian
 
 	// step 2: read the Directory
+	secSize := int64(1) << int64(h.SectorShift)
 	sid := h.FirstDirectorySectorLocation
-	offs := int64(1+sid) << int64(h.SectorShift)
-	br.Seek(offs, io.SeekStart)
 
-	for j := 0; j < 4; j++ {
+	for n := 0; sid != secEndOfChain; n++ {
+		offs := int64(1+sid) << int64(h.SectorShift)
+		if n > len(d.fat) || int64(sid) >= int64(len(d.fat)) || offs+secSize > int64(len(d.data)) {
+			return errors.New("xls/cfb: unable to load file")
+		}
+		br.Seek(offs, io.SeekStart)
+		if err := d.readDirSector(br, le, int(secSize/direntSize)); err != nil {
+			return err
+		}
+		sid = d.fat[sid]
+	}
+	return nil
+}
+
+// size of a stored directory entry
+const direntSize = 128
+
+// readDirSector reads the n directory entries of a sector.
+func (d *Document) readDirSector(br *bytes.Reader, le binary.ByteOrder, n int) error {
+	for j := 0; j < n; j++ {
 		dirent := &directory{}
-		binary.Read(br, le, dirent)
+		if err := binary.Read(br, le, dirent); err != nil {
+			return err
+		}
 		if d.header.MajorVersion == 3 {
 			// mask out upper 32bits
 			dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
@@ -282,7 +302,8 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 				}
 			*/
 		case typeUnknown:
-			return nil
+			// unused entry
+			continue
 		}
 		d.dir = append(d.dir, dirent)
 	}
-- 
2.43.0


From ee15422ce1e0940a857bd1596962585714093550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 08/35] fix: corrupt sector chains and stream sizes panicked
 when opening a stream

---
 xls/cfb/cfb.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 0cc240a..0b6caa8 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -314,28 +314,31 @@ func (d *Document) readDirSector(br *bytes.Reader, le binary.ByteOrder, n int) e
 func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
-	streamData := make([][]byte, 1+(size>>d.header.SectorShift))
+	if size > uint64(len(d.data)) {
+		return nil, errors.New("ole2: corrupt data format")
+	}
+	streamData := make([][]byte, 0, 1+(size>>d.header.SectorShift))
 
-	x := 0
 	secSize := int64(1) << int32(d.header.SectorShift)
 	for sid != secEndOfChain && sid != secFree {
 		offs := int64(1+sid) << int64(d.header.SectorShift)
-		if offs > int64(len(d.data)) {
-			return nil, errors.New("ole2: corrupt data format")
+		end := offs + secSize
+		if size < uint64(secSize) {
+			end = offs + int64(size)
 		}
-		slice := d.data[offs : offs+secSize]
-		if size < uint64(len(slice)) {
-			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
+		if end > int64(len(d.data)) {
+			return nil, errors.New("ole2: corrupt data format")
 		}
-		streamData[x] = slice
+		slice := d.data[offs:end]
+		size -= uint64(len(slice))
+		streamData = append(streamData, slice)
 		if size == 0 {
 			break
 		}
+		if int64(sid) >= int64(len(d.fat)) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
 		sid = d.fat[sid]
-		x++
 	}
 	if size != 0 {
 		return nil, errors.New("ole2: incomplete read")
-- 
2.43.0


From 99ce8b981d7102e8ec3cddde90f2ff6b0607f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 09/35] fix: corrupt mini sector chains panicked, short ones
 gave truncated data

Mini streams are stored in a regular stream, so its blocks are taken with the
regular chain; every mini sector and chain entry is checked against it, the
chain stops when the stream is complete and an incomplete chain is an error.
---
 xls/cfb/cfb.go | 58 ++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 0b6caa8..81f0f13 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -349,49 +349,51 @@ func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, erro
 
 func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
 	// TODO: move into a separate cache so we don't recalculate it each time
-	fatStreamData := make([][]byte, 1+(d.ministreamsize>>d.header.SectorShift))
+	fatStream, err := d.getStreamReader(d.ministreamstart, uint64(d.ministreamsize))
+	if err != nil {
+		return nil, err
+	}
+	fatStreamData := fatStream.(*SliceReader).Data
 
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
-	streamData := make([][]byte, 1+(size>>d.header.MiniSectorShift))
-
-	x := 0
-	fsid := d.ministreamstart
-	fsize := uint64(d.ministreamsize)
-	secSize := int64(1) << int64(d.header.SectorShift)
-	for fsid != secEndOfChain && fsid != secFree {
-		offs := int64(1+fsid) << int64(d.header.SectorShift)
-		slice := d.data[offs : offs+secSize]
-		if fsize < uint64(len(slice)) {
-			slice = slice[:fsize]
-			fsize = 0
-		} else {
-			fsize -= uint64(len(slice))
-		}
-		fatStreamData[x] = slice
-		x++
-		fsid = d.fat[fsid]
+	if size > uint64(len(d.data)) {
+		return nil, errors.New("ole2: corrupt data format")
 	}
+	streamData := make([][]byte, 0, 1+(size>>d.header.MiniSectorShift))
 
-	x = 0
+	secSize := int64(1) << int64(d.header.SectorShift)
 	miniSecSize := int64(1) << int64(d.header.MiniSectorShift)
 	for sid != secEndOfChain && sid != secFree {
 		offs := int64(sid) << int64(d.header.MiniSectorShift)
 
 		so, si := offs/secSize, offs%secSize
+		if so >= int64(len(fatStreamData)) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
 		data := fatStreamData[so]
+		end := si + miniSecSize
+		if size < uint64(miniSecSize) {
+			end = si + int64(size)
+		}
+		if end > int64(len(data)) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
 
-		slice := data[si : si+miniSecSize]
-		if size < uint64(len(slice)) {
-			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
+		slice := data[si:end]
+		size -= uint64(len(slice))
+		streamData = append(streamData, slice)
+		if size == 0 {
+			break
+		}
+		if int64(sid) >= int64(len(d.minifat)) {
+			return nil, errors.New("ole2: corrupt data format")
 		}
-		streamData[x] = slice
-		x++
 		sid = d.minifat[sid]
 	}
+	if size != 0 {
+		return nil, errors.New("ole2: incomplete read")
+	}
 
 	return &SliceReader{Data: streamData}, nil
 }
-- 
2.43.0


From 707db4830d7cfeb9f9f203085d7c8177502a02c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 10/35] fix: applying an unknown number format called a nil
 function

---
 commonxl/formats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 49b58a9..6185949 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -220,6 +220,10 @@ func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
 			return fs(x, val), true
 		}
 	}
+	if !ok {
+		// unknown formats render the value as-is
+		ff = identFunc
+	}
 	return ff(x, val), ok
 }
 
-- 
2.43.0


From eae22fab77a46f259e3dc657aacf4658e90fb92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 11/35] fix: comma and parenthesis formats panicked on empty
 text

---
 commonxl/fmt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f99e01b..359e17c 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -24,7 +24,7 @@ func surround(pre string, ff FmtFunc, post string) FmtFunc {
 func addNegParens(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			return "(" + s1[1:] + ")"
 		}
 		return s1
@@ -35,7 +35,7 @@ func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
 		isNeg := false
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			isNeg = true
 			s1 = s1[1:]
 		}
-- 
2.43.0


From fb5ed70e582ae1bf6f6be511df37d414b4b90f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 12/35] fix: links and formats of cells got lost or panicked

Linking a blank cell panicked, linking twice kept the first link, a linked
cell reported no number format and clearing the format dropped the link.
---
 commonxl/cell.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 9b1c5b2..f31951e 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -64,12 +64,14 @@ func (c Cell) Value() interface{} {
 
 // SetURL adds a URL hyperlink to the cell.
 func (c *Cell) SetURL(link string) {
+	if len(*c) < 2 {
+		*c = Cell{nil, BlankCell}
+	}
 	(*c)[1] = HyperlinkStringCell
 	if len(*c) == 2 {
-		*c = append(*c, uint16(0), link)
-	} else { // len = 3 already
-		*c = append(*c, link)
+		*c = append(*c, uint16(0))
 	}
+	*c = append((*c)[:3], link)
 }
 
 // URL returns the parsed URL when a cell contains a hyperlink.
@@ -91,7 +93,7 @@ func (c Cell) Type() CellType {
 
 // FormatNo returns the NumberFormat used for display.
 func (c Cell) FormatNo() uint16 {
-	if len(c) == 3 {
+	if len(c) >= 3 {
 		return c[2].(uint16)
 	}
 	return 0
@@ -304,7 +306,10 @@ func NewCell(value interface{}) Cell {
 
 // SetFormatNumber changes the number format stored with the cell.
 func (c *Cell) SetFormatNumber(f uint16) {
-	if f == 0 {
+	if len(*c) < 2 {
+		*c = Cell{nil, BlankCell}
+	}
+	if f == 0 && len(*c) <= 3 {
 		*c = (*c)[:2]
 		return
 	}
-- 
2.43.0


From 6a84b9590f123b5fffb6800da2971389d34819bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 13/35] fix: large uint values became negative

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index f31951e..cfa49ce 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -230,7 +230,7 @@ func NewCell(value interface{}) Cell {
 		c[1] = IntegerCell
 
 	case uint:
-		if int64(v) > int64(math.MaxInt64) {
+		if uint64(v) > math.MaxInt64 {
 			c[0] = float64(v)
 			c[1] = FloatCell
 		} else {
-- 
2.43.0


From 916546fe83b78e3111e6eb7b950d8d05c0af442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 14/35] fix: cells kept values that do not match their type

Blank cells with a text format held "<nil>", text and booleans with a date
format were typed as dates, and text with a numeric format became zero.
---
 commonxl/cell.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index cfa49ce..086952a 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -120,7 +120,7 @@ var boolStrings = map[string]bool{
 // NewCellWithType creates a new cell value with the given type, coercing as necessary.
 func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	c := NewCell(value)
-	if c[1] == t {
+	if c[1] == t || c[1] == BlankCell {
 		// fast path if it was already typed correctly
 		return c
 	}
@@ -170,16 +170,20 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	}
 	if c[1] == StringCell {
 		if t == IntegerCell {
-			x, _ := strconv.ParseInt(c[0].(string), 10, 64)
-			c[0] = x
-			c[1] = IntegerCell
+			if x, err := strconv.ParseInt(c[0].(string), 10, 64); err == nil {
+				c[0] = x
+				c[1] = IntegerCell
+			}
 		} else if t == FloatCell {
-			x, _ := strconv.ParseFloat(c[0].(string), 64)
-			c[0] = x
-			c[1] = FloatCell
+			if x, err := strconv.ParseFloat(c[0].(string), 64); err == nil {
+				c[0] = x
+				c[1] = FloatCell
+			}
 		} else if t == BooleanCell {
-			c[0] = boolStrings[c[0].(string)]
-			c[1] = BooleanCell
+			if x, ok := boolStrings[c[0].(string)]; ok {
+				c[0] = x
+				c[1] = BooleanCell
+			}
 		}
 	}
 	if t == StringCell {
@@ -189,10 +193,11 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	if t == DateCell {
 		if c[1] == FloatCell {
 			c[0] = f.ConvertToDate(c[0].(float64))
+			c[1] = DateCell
 		} else if c[1] == IntegerCell {
 			c[0] = f.ConvertToDate(float64(c[0].(int64)))
+			c[1] = DateCell
 		}
-		c[1] = DateCell
 	}
 	return c
 }
-- 
2.43.0


From 22f6b70e3fbe6f236a4a9ee8cbfa5bbc6131231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 15/35] fix: number formats changed the contents of text cells

Text stored in cells with numeric, fraction, date and custom formats was
parsed as a number, grouped, surrounded or replaced by a message.
---
 commonxl/formats.go | 14 ++++----------
 commonxl/sheet.go   |  4 +++-
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 6185949..23fd093 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -213,16 +213,10 @@ func (x *Formatter) Get(fmtID uint16) (FmtFunc, bool) {
 // Apply the specified number format to the value.
 // Returns false when fmtID is unknown.
 func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
-	ff, ok := goFormatters[fmtID]
-	if !ok {
-		fs, ok2 := x.customCodes[fmtID]
-		if ok2 {
-			return fs(x, val), true
-		}
-	}
-	if !ok {
-		// unknown formats render the value as-is
-		ff = identFunc
+	ff, ok := x.Get(fmtID)
+	if s, isText := val.(string); isText {
+		// text is shown as-is
+		return s, ok
 	}
 	return ff(x, val), ok
 }
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index a165334..e55dfff 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -76,7 +76,9 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	}
 
 	ct, ok := s.Formatter.getCellType(fmtNum)
-	if !ok || fmtNum == 0 {
+	_, isText := value.(string)
+	if !ok || fmtNum == 0 || isText {
+		// NB number formats do not change the contents of text cells
 		s.Rows[row][col] = NewCell(value)
 	} else {
 		s.Rows[row][col] = NewCellWithType(value, ct, s.Formatter)
-- 
2.43.0


From d10e9f8222e53783d4e90c06700c2469f20f45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 16/35] fix: comparing cells was not symmetric and panicked on
 blanks and dates

Equal parsed its own value in place of the other one, false and a negative
number were each less than the other.
---
 commonxl/cell.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 086952a..5f307a4 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -329,23 +329,23 @@ func (c *Cell) SetFormatNumber(f uint16) {
 func (c Cell) Equal(other Cell) bool {
 	if c.Type() == FloatCell || other.Type() == FloatCell ||
 		c.Type() == IntegerCell || other.Type() == IntegerCell {
-		v1, ok := c[0].(float64)
-		v1x, okx := c[0].(int64)
+		v1, ok := c.Value().(float64)
+		v1x, okx := c.Value().(int64)
 		if okx {
 			v1 = float64(v1x)
 			ok = true
 		}
 		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v1)
+			fmt.Sscanf(fmt.Sprint(c.Value()), "%g", &v1)
 		}
-		v2, ok := other[0].(float64)
-		v2x, okx := other[0].(int64)
+		v2, ok := other.Value().(float64)
+		v2x, okx := other.Value().(int64)
 		if okx {
 			v2 = float64(v2x)
 			ok = true
 		}
 		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v2)
+			fmt.Sscanf(fmt.Sprint(other.Value()), "%g", &v2)
 		}
 		return v1 == v2
 	}
@@ -354,7 +354,7 @@ func (c Cell) Equal(other Cell) bool {
 }
 
 func (c Cell) Less(other Cell) bool {
-	if len(c) == 0 {
+	if len(c) == 0 || len(other) == 0 {
 		return false
 	}
 	switch v1 := c[0].(type) {
@@ -376,9 +376,9 @@ func (c Cell) Less(other Cell) bool {
 		case bool:
 			return v2
 		case int64:
-			return v2 != 0
+			return v2 > 0
 		case float64:
-			return v2 != 0.0
+			return v2 > 0.0
 		case string:
 			return boolStrings[v2]
 		}
@@ -466,8 +466,15 @@ func (c Cell) Less(other Cell) bool {
 		case string:
 			return v1 < v2
 		}
-
+	case time.Time:
+		switch v2 := other[0].(type) {
+		case nil:
+			return false
+		case time.Time:
+			return v1.Before(v2)
+		}
 	}
 
-	panic("unable to compare cells (invalid internal type)")
+	// dates are compared with other types by their text
+	return fmt.Sprint(c[0]) < fmt.Sprint(other[0])
 }
-- 
2.43.0


From a7240f68521e55b48ad43032a6965c6f67786103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 17/35] fix: resizing a table kept rows longer than the table
 and added a row

Reading a row after the number of columns was reduced panicked, and every
table had a blank row after its last row.
---
 commonxl/sheet.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index e55dfff..2d0741b 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -21,17 +21,6 @@ type Sheet struct {
 // Resize the sheet for the number of rows and cols given.
 // Newly added cells default to blank.
 func (s *Sheet) Resize(rows, cols int) {
-	for i := range s.Rows {
-		if i > rows {
-			break
-		}
-		n := cols - len(s.Rows[i])
-		if n <= 0 {
-			continue
-		}
-		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
-	}
-
 	if rows <= 0 {
 		rows = 1
 	}
@@ -42,7 +31,19 @@ func (s *Sheet) Resize(rows, cols int) {
 	s.NumRows = rows
 	s.NumCols = cols
 
-	for rows >= len(s.Rows) {
+	if rows < len(s.Rows) {
+		s.Rows = s.Rows[:rows]
+	}
+	for i := range s.Rows {
+		n := cols - len(s.Rows[i])
+		if n <= 0 {
+			s.Rows[i] = s.Rows[i][:cols]
+			continue
+		}
+		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
+	}
+
+	for rows > len(s.Rows) {
 		s.Rows = append(s.Rows, make([]Cell, cols))
 	}
 }
-- 
2.43.0


From 5a34c00fee871498880def0569234ac7a01eedd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 18/35] fix: setting cells out of bounds or at blank positions
 panicked

---
 commonxl/sheet.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 2d0741b..35c0cbc 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -51,6 +51,10 @@ func (s *Sheet) Resize(rows, cols int) {
 // Put the value at the cell location given.
 func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	//log.Println(row, col, value, fmtNum)
+	if row < 0 || col < 0 {
+		log.Println("grate: cell out of bounds")
+		return
+	}
 	if row >= s.NumRows || col >= s.NumCols {
 		if grate.Debug {
 			log.Printf("grate: cell out of bounds row %d>=%d, col %d>=%d",
@@ -90,18 +94,21 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 // Set changes the value in an existing cell location.
 // NB Currently only used for populating string results for formulas.
 func (s *Sheet) Set(row, col int, value interface{}) {
-	if row > s.NumRows || col > s.NumCols {
+	if row < 0 || col < 0 || row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
-	s.Rows[row][col][0] = value
-	s.Rows[row][col][1] = StringCell
+	c := NewCell(value)
+	if len(s.Rows[row][col]) > 2 {
+		c = append(c, s.Rows[row][col][2:]...)
+	}
+	s.Rows[row][col] = c
 }
 
 // SetURL adds a hyperlink to an existing cell location.
 func (s *Sheet) SetURL(row, col int, link string) {
-	if row > s.NumRows || col > s.NumCols {
+	if row < 0 || col < 0 || row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
-- 
2.43.0


From 5e0e5501160969cfaeb96b8fdcda4995d05bd042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 19/35] fix: scanning a row into too many variables panicked

Also report ErrInvalidScanType for unsupported destinations as documented,
and show blank cells with a link as empty text.
---
 commonxl/sheet.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 35c0cbc..29d8d67 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -148,6 +148,10 @@ func (s *Sheet) Strings() []string {
 			continue
 		}
 		val := cell.Value()
+		if val == nil {
+			// a blank cell with a link
+			continue
+		}
 		fs, ok := s.Formatter.Apply(cell.FormatNo(), val)
 		if !ok {
 			fs = fmt.Sprint(val)
@@ -187,13 +191,16 @@ func (s *Sheet) Formats() []string {
 // If invalid, returns ErrInvalidScanType
 func (s *Sheet) Scan(args ...interface{}) error {
 	row := s.Rows[s.CurRow-1]
+	if len(args) > len(row) {
+		return fmt.Errorf("scan expected at most %d destinations, got %d", len(row), len(args))
+	}
 
 	for i, a := range args {
 		val := row[i].Value()
 
 		switch v := a.(type) {
 		case bool, int64, float64, string, time.Time:
-			return fmt.Errorf("scan destinations must be pointer (arg %d is not)", i)
+			return grate.WrapErr(fmt.Errorf("scan destinations must be pointer (arg %d is not)", i), grate.ErrInvalidScanType)
 		case *bool:
 			if x, ok := val.(bool); ok {
 				*v = x
@@ -225,7 +232,7 @@ func (s *Sheet) Scan(args ...interface{}) error {
 				return fmt.Errorf("scan destination %d expected *%T, not *time.Time", i, val)
 			}
 		default:
-			return fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a)
+			return grate.WrapErr(fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a), grate.ErrInvalidScanType)
 		}
 	}
 	return nil
-- 
2.43.0


From 7f861885d260bb55af4ca9990ae5f3a6f3f92849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 20/35] fix: comma formats inserted commas between letters and
 spaces

FALSE became "f,alse" and right-aligned numbers got commas in their padding.
---
 commonxl/fmt.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 359e17c..24d2a53 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -34,22 +34,19 @@ func addNegParens(ff FmtFunc) FmtFunc {
 func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
-		isNeg := false
-		if strings.HasPrefix(s1, "-") {
-			isNeg = true
-			s1 = s1[1:]
+		// find the integer digits
+		startIndex := strings.IndexAny(s1, "0123456789")
+		if startIndex < 0 {
+			return s1
 		}
-		endIndex := strings.IndexAny(s1, ".eE")
-		if endIndex < 0 {
-			endIndex = len(s1)
+		endIndex := startIndex
+		for endIndex < len(s1) && s1[endIndex] >= '0' && s1[endIndex] <= '9' {
+			endIndex++
 		}
-		for endIndex > 3 {
+		for endIndex-startIndex > 3 {
 			endIndex -= 3
 			s1 = s1[:endIndex] + "," + s1[endIndex:]
 		}
-		if isNeg {
-			return "-" + s1
-		}
 		return s1
 	}
 }
-- 
2.43.0


From 94e6afe0c70fa597bc84adaa07a72417d5c83291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 21/35] fix: serial times showed the second before the one
 stored

The time of day was truncated instead of rounded, and serials before March 1900
(all pure times) additionally lost 40 microseconds in the julian day conversion.
---
 commonxl/dates.go | 28 ++--------------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index dad6ae9..ea6a846 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -8,39 +8,15 @@ import (
 // ConvertToDate converts a floating-point value using the
 // Excel date serialization conventions.
 func (x *Formatter) ConvertToDate(val float64) time.Time {
-	// http://web.archive.org/web/20190808062235/http://aa.usno.navy.mil/faq/docs/JD_Formula.php
 	v := int(val)
-	if v < 61 {
-		jdate := val + 0.5
-		if (x.flags & fMode1904) != 0 {
-			jdate += 2416480.5
-		} else {
-			jdate += 2415018.5
-		}
-		JD := int(jdate)
-		frac := jdate - float64(JD)
-
-		L := JD + 68569
-		N := 4 * L / 146097
-		L = L - (146097*N+3)/4
-		I := 4000 * (L + 1) / 1461001
-		L = L - 1461*I/4 + 31
-		J := 80 * L / 2447
-		day := L - 2447*J/80
-		L = J / 11
-		month := time.Month(J + 2 - 12*L)
-		year := 100*(N-49) + I + L
-
-		t := time.Duration(float64(time.Hour*24) * frac)
-		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(t)
-	}
 	frac := val - float64(v)
 	date := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
 	if (x.flags & fMode1904) == 0 {
 		date = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
 	}
 
-	t := time.Duration(float64(time.Hour*24) * frac)
+	// round to the precision of the time of day in serial dates
+	t := time.Duration(float64(time.Hour*24) * frac).Round(time.Millisecond)
 	return date.AddDate(0, 0, v).Add(t)
 }
 
-- 
2.43.0


From c3a424226b22bb0779a8678622cf8895f4566991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 22/35] fix: tiny and negative numbers gave fractions with ten
 digits

The fraction of a negative or very small number was 1/1000000000 whatever the number of
digits asked for.
---
 commonxl/numbers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commonxl/numbers.go b/commonxl/numbers.go
index c3df4c2..3bdd9ce 100644
--- a/commonxl/numbers.go
+++ b/commonxl/numbers.go
@@ -26,11 +26,11 @@ func DecimalToWholeFraction(val float64, nn, nd int) (whole, num, den int) {
 func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 	// http://web.archive.org/web/20111027100847/http://homepage.smc.edu/kennedy_john/DEC2FRAC.PDF
 	sign := 1
-	z := val
 	if val < 0 {
 		sign = -1
-		z = -val
+		val = -val
 	}
+	z := val
 	if nn == 0 {
 		nn = 2
 	}
@@ -45,7 +45,7 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 		return int(z) * sign, 1
 	}
 	if fracPart < 1e-9 {
-		return sign, int(1e9)
+		return int(z) * sign, 1
 	}
 	if fracPart > 1e9 {
 		return int(1e9) * sign, 1
-- 
2.43.0


From f61c5fcad3feafa57500ec7e4b303c982c73ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:20 +0000
Subject: [PATCH 23/35] fix: RK numbers stored as an integer divided by 100 are
 not zero

RKNumber.Float64 returned 0 for both integer encodings, so an RK cell with
the integer and the x100 flags both set was shown as 0.
---
 xls/structs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xls/structs.go b/xls/structs.go
index c8d49a7..2a87bc0 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -96,7 +96,10 @@ func (r RKNumber) Float64() float64 {
 	if (r&1) != 0 && (r&2) == 0 {
 		return v2 / 100.0
 	}
-	return 0.0
+	if (r & 1) == 0 {
+		return float64(val)
+	}
+	return float64(val) / 100.0
 }
 
 func (r RKNumber) String() string {
-- 
2.43.0


From c5bb09e85d9efa29732dd5a5c829f2687d9d4141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 24/35] fix: reject strings that are longer than their record

A short or truncated string record made both XLUnicodeString decoders slice
past the end of the data and panic.
---
 xls/strings.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xls/strings.go b/xls/strings.go
index ae96981..fc448c0 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -11,9 +11,15 @@ import (
 // 2.5.240
 func decodeShortXLUnicodeString(raw []byte) (string, int, error) {
 	// identical to decodeXLUnicodeString except for cch=8bits instead of 16
+	if len(raw) < 2 {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 	cch := int(raw[0])
 	flags := raw[1]
 	raw = raw[2:]
+	if len(raw) < cch || ((flags&0x1) != 0 && len(raw) < 2*cch) {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 
 	content := make([]uint16, cch)
 	if (flags & 0x1) == 0 {
@@ -37,9 +43,15 @@ func decodeShortXLUnicodeString(raw []byte) (string, int, error) {
 // 2.5.294
 func decodeXLUnicodeString(raw []byte) (string, int, error) {
 	// identical to decodeShortXLUnicodeString except for cch=16bits instead of 8
+	if len(raw) < 3 {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 	cch := int(binary.LittleEndian.Uint16(raw[:2]))
 	flags := raw[2]
 	raw = raw[3:]
+	if len(raw) < cch || ((flags&0x1) != 0 && len(raw) < 2*cch) {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 
 	content := make([]uint16, cch)
 	if (flags & 0x1) == 0 {
-- 
2.43.0


From d5375871b7ed51a1bc87cc094c5c19b19acdfc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:23 +0000
Subject: [PATCH 25/35] fix: do not run past the records of the shared string
 table

Truncated tables made parseSST index past the end of a record or of the
record list, and an oversized string count made it allocate that much. Text
followed by a single byte of formatting data in its record was rejected.
---
 xls/strings.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/xls/strings.go b/xls/strings.go
index fc448c0..bbd1118 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -152,7 +152,18 @@ func parseSST(recs []*rec) ([]string, error) {
 	// from an 8-bit encoding to 16-bit or vice versa.
 
 	//totalRefs := binary.LittleEndian.Uint32(recs[0].Data[0:4])
+	if len(recs[0].Data) < 8 {
+		return nil, io.ErrUnexpectedEOF
+	}
 	numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
+	// every string needs at least 3 bytes, do not trust the stored count
+	avail := 0
+	for _, r := range recs {
+		avail += len(r.Data)
+	}
+	if numStrings > uint32(avail/3) {
+		numStrings = uint32(avail / 3)
+	}
 
 	all := make([]string, 0, numStrings)
 	current := make([]uint16, 32*1024)
@@ -164,6 +175,9 @@ func parseSST(recs []*rec) ([]string, error) {
 		var cbExtRs uint32
 
 		for len(buf) > 0 {
+			if len(buf) < 3 {
+				return nil, io.ErrUnexpectedEOF
+			}
 			slen := binary.LittleEndian.Uint16(buf)
 			buf = buf[2:]
 			flags = buf[0]
@@ -171,12 +185,18 @@ func parseSST(recs []*rec) ([]string, error) {
 
 			if (flags & 0x8) != 0 {
 				// rich formating data is present
+				if len(buf) < 2 {
+					return nil, io.ErrUnexpectedEOF
+				}
 				cRun := binary.LittleEndian.Uint16(buf)
 				cRunBytes = int(cRun) * 4
 				buf = buf[2:]
 			}
 			if (flags & 0x4) != 0 {
 				// phonetic string data is present
+				if len(buf) < 4 {
+					return nil, io.ErrUnexpectedEOF
+				}
 				cbExtRs = binary.LittleEndian.Uint32(buf)
 				buf = buf[4:]
 			}
@@ -201,6 +221,9 @@ func parseSST(recs []*rec) ([]string, error) {
 			for j := 0; j < int(slen); j++ {
 				if len(buf) == 0 {
 					i++
+					if i >= len(recs) || len(recs[i].Data) < 2 {
+						return nil, io.ErrUnexpectedEOF
+					}
 					if (recs[i].Data[0] & 1) == 0 {
 						flags &= 0xFE
 					} else {
@@ -213,11 +236,11 @@ func parseSST(recs []*rec) ([]string, error) {
 					current[j] = uint16(buf[0])
 					buf = buf[1:]
 				} else { //16-bit
-					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
-					buf = buf[2:]
-					if len(buf) == 1 {
+					if len(buf) < 2 {
 						return nil, errors.New("xls: off by one")
 					}
+					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
+					buf = buf[2:]
 				}
 			}
 
@@ -233,6 +256,9 @@ func parseSST(recs []*rec) ([]string, error) {
 				} else {
 					cRunBytes -= len(buf)
 					i++
+					if i >= len(recs) {
+						return nil, io.ErrUnexpectedEOF
+					}
 					buf = recs[i].Data
 				}
 			}
@@ -244,6 +270,9 @@ func parseSST(recs []*rec) ([]string, error) {
 				} else {
 					cbExtRs -= uint32(len(buf))
 					i++
+					if i >= len(recs) {
+						return nil, io.ErrUnexpectedEOF
+					}
 					buf = recs[i].Data
 				}
 			}
-- 
2.43.0


From f54863a422ba767f495e96dd28c442a1203cd47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:51 +0000
Subject: [PATCH 26/35] fix: record sizes near 64k do not wrap

4+RecSize was computed in 16 bits, so a record of 65532 bytes or more made
nextRecord slice backwards and panic.
---
 xls/xls.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xls/xls.go b/xls/xls.go
index 15ff55c..43ddb7d 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -355,6 +355,6 @@ func (b *WorkBook) nextRecord(raw []byte) (*rec, int, error) {
 		recPool.Put(rec)
 		return nil, 4, io.ErrUnexpectedEOF
 	}
-	rec.Data = raw[4 : 4+rec.RecSize]
-	return rec, int(4 + rec.RecSize), nil
+	rec.Data = raw[4 : 4+int(rec.RecSize)]
+	return rec, 4 + int(rec.RecSize), nil
 }
-- 
2.43.0


From 7aba743f56edcd3abfb33a3bd73479a57cd26ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:52 +0000
Subject: [PATCH 27/35] fix: records outside of any BOF/EOF pair

A stream that does not start with BOF indexed substream -1, and a stray EOF
made the following substream count as nested in the previous one.
---
 xls/xls.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xls/xls.go b/xls/xls.go
index 43ddb7d..b68205c 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -194,7 +194,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 		raw = raw[no:]
 		switch nr.RecType {
 		case RecTypeEOF:
-			nestedBOF--
+			if nestedBOF > 0 {
+				nestedBOF--
+			}
 		case RecTypeBOF:
 			// when substreams are nested, keep them in the same grouping
 			if nestedBOF == 0 {
@@ -205,6 +207,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			nestedBOF++
 		}
 		b.fpos += int64(4 + len(nr.Data))
+		if substr < 0 {
+			return errors.New("xls: stream does not start with a BOF record")
+		}
 
 		// if there's a FilePass record, the data is encrypted
 		if nr.RecType == RecTypeFilePass && !isDecrypted {
-- 
2.43.0


From f004dfc2f1d1552d2501fd73d4515928e2c9527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:53 +0000
Subject: [PATCH 28/35] fix: reject workbook records that are too short

A FilePass, BOF, CodePage, Date1904, Format, XF or BoundSheet8 record shorter
than its fixed part made opening the workbook panic.
---
 xls/xls.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/xls/xls.go b/xls/xls.go
index b68205c..52aa3eb 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -213,6 +213,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 		// if there's a FilePass record, the data is encrypted
 		if nr.RecType == RecTypeFilePass && !isDecrypted {
+			if len(nr.Data) < 2 {
+				return io.ErrUnexpectedEOF
+			}
 			etype := binary.LittleEndian.Uint16(nr.Data)
 			switch etype {
 			case 1:
@@ -273,6 +276,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 				// done
 
 			case RecTypeBOF:
+				if len(nr.Data) < 16 {
+					return io.ErrUnexpectedEOF
+				}
 				b.h = &header{
 					Version:  binary.LittleEndian.Uint16(nr.Data[0:2]),
 					DocType:  binary.LittleEndian.Uint16(nr.Data[2:4]),
@@ -297,13 +303,22 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 			case RecTypeCodePage:
 				// BIFF8 is entirely UTF-16LE so this is actually ignored
+				if len(nr.Data) < 2 {
+					return io.ErrUnexpectedEOF
+				}
 				b.codepage = binary.LittleEndian.Uint16(nr.Data)
 
 			case RecTypeDate1904:
+				if len(nr.Data) < 2 {
+					return io.ErrUnexpectedEOF
+				}
 				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
 
 			case RecTypeFormat:
 				// Format maps a format ID to a code string
+				if len(nr.Data) < 2 {
+					return io.ErrUnexpectedEOF
+				}
 				fmtNo := binary.LittleEndian.Uint16(nr.Data)
 				formatStr, _, err := decodeXLUnicodeString(nr.Data[2:])
 				if err != nil {
@@ -315,12 +330,18 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			case RecTypeXF:
 				// XF records merge multiple style and format directives to one ID
 				// ignore font id at nr.Data[0:2]
+				if len(nr.Data) < 4 {
+					return io.ErrUnexpectedEOF
+				}
 				fmtNo := binary.LittleEndian.Uint16(nr.Data[2:])
 				b.xfs = append(b.xfs, fmtNo)
 
 			case RecTypeBoundSheet8:
 				// Identifies the postition within the stream, visibility state,
 				// and name of a worksheet
+				if len(nr.Data) < 6 {
+					return io.ErrUnexpectedEOF
+				}
 				bs := &boundSheet{}
 				bs.Position = binary.LittleEndian.Uint32(nr.Data[:4])
 				bs.HiddenState = nr.Data[4]
-- 
2.43.0


From 1b51daf9fe5af4e6f2cf7e47ab14046e29db6dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 29/35] fix: honour the 1904 date system of xls workbooks

The Date1904 record was read but never passed on to the formatter, so all
dates of such workbooks were four years and a day early.
---
 xls/xls.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xls/xls.go b/xls/xls.go
index 52aa3eb..289f52b 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -313,6 +313,7 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 					return io.ErrUnexpectedEOF
 				}
 				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
+				b.nfmt.Mode1904(b.dateMode == 1)
 
 			case RecTypeFormat:
 				// Format maps a format ID to a code string
-- 
2.43.0


From 2724f54d2883e72a4a963bc719ebc28cb7eb80d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 30/35] fix: decrypt every record of a stream, and none past
 its end

The last record was dropped when it has no content (the EOF of the last
sheet), and records that are longer than the stream, than 8224 bytes, or a
BoundSheet8 of less than 4 bytes made decryption panic.
---
 xls/xls.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/xls/xls.go b/xls/xls.go
index 289f52b..44e3454 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -96,7 +96,7 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	}
 
 	pos := 0
-	zeros := [8224]byte{}
+	zeros := [65536]byte{}
 
 	type overlay struct {
 		Pos int
@@ -108,12 +108,15 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	replaceBlocks := []overlay{}
 
 	var err error
-	for err == nil && len(raw[pos:]) > 4 {
+	for err == nil && len(raw[pos:]) >= 4 {
 		o := overlay{}
 		o.Pos = pos
 		o.RecType = recordType(binary.LittleEndian.Uint16(raw[pos : pos+2]))
 		o.DataBytes = binary.LittleEndian.Uint16(raw[pos+2 : pos+4])
 		pos += 4
+		if len(raw[pos:]) < int(o.DataBytes) {
+			return io.ErrUnexpectedEOF
+		}
 
 		// copy to output and decryption stream
 		binary.Write(dec, binary.LittleEndian, o.RecType)
@@ -130,10 +133,14 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 
 		case RecTypeBoundSheet8:
 			// copy 32-bit position to output
-			o.Data = raw[pos : pos+4]
-			pos += 4
-			dec.Write(zeros[:4])
-			tocopy -= 4
+			clear := 4
+			if clear > tocopy {
+				clear = tocopy
+			}
+			o.Data = raw[pos : pos+clear]
+			pos += clear
+			dec.Write(zeros[:clear])
+			tocopy -= clear
 		}
 
 		if tocopy > 0 {
-- 
2.43.0


From c49be84013b6f878c91a66b2fbedb7d443b9a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:39 +0000
Subject: [PATCH 31/35] fix: simplify the bound on the string table allocation

---
 xls/strings.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/xls/strings.go b/xls/strings.go
index bbd1118..8289ce6 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -156,13 +156,9 @@ func parseSST(recs []*rec) ([]string, error) {
 		return nil, io.ErrUnexpectedEOF
 	}
 	numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
-	// every string needs at least 3 bytes, do not trust the stored count
-	avail := 0
-	for _, r := range recs {
-		avail += len(r.Data)
-	}
-	if numStrings > uint32(avail/3) {
-		numStrings = uint32(avail / 3)
+	// only a hint for the allocation, do not trust large values
+	if numStrings > 0xFFFF {
+		numStrings = 0xFFFF
 	}
 
 	all := make([]string, 0, numStrings)
-- 
2.43.0


From e5511ee6e6ba9c2138ddde33759500c004ec690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:55 +0000
Subject: [PATCH 32/35] fix: errors wrapped with WrapErr match every wrapped
 error

---
 errs.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/errs.go b/errs.go
index 784a551..9669759 100644
--- a/errs.go
+++ b/errs.go
@@ -35,8 +35,31 @@ func (e errx) Unwrap() error {
 	return nil
 }
 
+// Is reports whether any of the wrapped errors matches target.
+func (e errx) Is(target error) bool {
+	for _, err := range e.errs {
+		if errors.Is(err, target) {
+			return true
+		}
+	}
+	return false
+}
+
+// As finds the first of the wrapped errors that matches target.
+func (e errx) As(target interface{}) bool {
+	for _, err := range e.errs {
+		if errors.As(err, target) {
+			return true
+		}
+	}
+	return false
+}
+
 // WrapErr wraps a set of errors.
 func WrapErr(e ...error) error {
+	if len(e) == 0 {
+		return nil
+	}
 	if len(e) == 1 {
 		return e[0]
 	}
-- 
2.43.0


From 9233388cc9844fce7c3e21700629da143777bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:28 +0000
Subject: [PATCH 33/35] fix: reaching the end of a CSV file is not an error

---
 simple/csv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple/csv.go b/simple/csv.go
index 8df92e5..89ff8fd 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"encoding/csv"
+	"io"
 	"os"
 
 	"github.com/pbnjay/grate"
@@ -33,7 +34,7 @@ func OpenCSV(filename string) (grate.Source, error) {
 		total++
 		t.rows = append(t.rows, rec)
 	}
-	if err != nil {
+	if err != io.EOF {
 		switch perr := err.(type) {
 		case *csv.ParseError:
 			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
-- 
2.43.0


From ee7c815cf0b8d63790d8eecbf348e8053b4dd655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:53 +0000
Subject: [PATCH 34/35] fix: reject malformed cell references, accept absolute
 ones

---
 xlsx/types.go | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/xlsx/types.go b/xlsx/types.go
index 427c0c0..5a0442b 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -45,15 +45,29 @@ func (s staticCellType) String() string {
 
 // returns the 0-based index of the column string:
 //    "A"=0, "B"=1, "AA"=26, "BB"=53
+// or -1 if it is not a column of a sheet.
 func col2int(col string) int {
 	idx := 0
 	for _, c := range col {
+		if c < 'A' || c > 'Z' {
+			return -1
+		}
 		idx *= 26
 		idx += int(c - '@')
+		if idx > maxColumns {
+			return -1
+		}
 	}
 	return idx - 1
 }
 
+// limits of the format: columns A to XFD, rows 1 to 1048576
+const (
+	maxColumns = 16384
+	maxRows    = 1048576
+)
+
+// returns the 0-based indexes of the cell reference, or -1, -1 if it is malformed.
 func refToIndexes(r string) (column, row int) {
 	if len(r) < 2 {
 		return -1, -1
@@ -67,16 +81,36 @@ func refToIndexes(r string) (column, row int) {
 	col1 := r[:i1]
 	i2 := strings.IndexByte(r[i1:], 'C')
 	if i2 == -1 {
-		rn, _ := strconv.ParseInt(r[i1:], 10, 64)
-		return col2int(col1), int(rn) - 1
+		// ignore the absolute markers
+		if col1[0] == '$' {
+			col1 = col1[1:]
+		}
+		if n := len(col1); n > 0 && col1[n-1] == '$' {
+			col1 = col1[:n-1]
+		}
+		cn := col2int(col1)
+		rn, err := strconv.ParseInt(r[i1:], 10, 64)
+		if err != nil || rn < 1 || rn > maxRows || cn < 0 {
+			return -1, -1
+		}
+		return cn, int(rn) - 1
 	}
 
 	// R1C1 Reference Mode
-	col1 = r[i1:i2]
-	row1 := r[i2+1:]
-	cn, _ := strconv.ParseInt(col1, 10, 64)
-	rn, _ := strconv.ParseInt(row1, 10, 64)
-	return int(cn), int(rn) - 1
+	if col1 != "R" {
+		return -1, -1
+	}
+	row1 := r[i1 : i1+i2]
+	col1 = r[i1+i2+1:]
+	cn, err := strconv.ParseUint(col1, 10, 64)
+	if err != nil || cn < 1 || cn > maxColumns {
+		return -1, -1
+	}
+	rn, err := strconv.ParseInt(row1, 10, 64)
+	if err != nil || rn < 1 || rn > maxRows {
+		return -1, -1
+	}
+	return int(cn) - 1, int(rn) - 1
 }
 
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
-- 
2.43.0


From 91e43a75970641d7896cd7486e3895f9ab76c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 35/35] fix: honour the 1904 date system of xlsx workbooks

---
 xlsx/workbook.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index d789562..b5eae97 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -80,6 +80,11 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 					err:     errNotLoaded,
 				}
 				d.sheets = append(d.sheets, s)
+			case "workbookPr":
+				switch getAttrs(v.Attr, "date1904")[0] {
+				case "1", "true":
+					d.fmt.Mode1904(true)
+				}
 			case "workbook", "sheets":
 				// containers
 			default:
-- 
2.43.0

