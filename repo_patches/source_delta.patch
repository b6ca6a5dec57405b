From a1300b5c486a5c37061e60445639a9eb0ec9369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:41 +0000
Subject: [PATCH 01/61] fix: return the visitor error from
 DirectoryInode.VisitFiles

---
 pkg/iso9660/directoryinode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 59b390b..493a07d 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -248,12 +248,15 @@ func (d *DirectoryInode) VisitFiles(visit Visitor) error {
 			case InodeTypeDirectory:
 				q.Enqueue(dent.child)
 			case InodeTypeFile:
-				visit(Relationship{
+				err := visit(Relationship{
 					Parent:     parent,
 					Identifier: ident,
 					Name:       dent.name,
 					Child:      dent.child,
 				})
+				if err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From d42c5f162abd97ee04145fb19db92e748a345418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:41 +0000
Subject: [PATCH 02/61] fix: return the callback error from Walker.Walk

The error was stored in err inside the callback and then overwritten by the
result of iterDir.
---
 pkg/iso9660/walk.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index a786237..38c24dc 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -73,9 +73,10 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 
 	for q.Len() > 0 {
 		item := q.Dequeue().(*walkItem)
+		var walkErr error
 		err = iterDir(w.iso, item.fi.Extent(), item.fi.Size(), func(fi *FileInfo) bool {
 			path := "/" + strings.Join(item.parts, "/")
-			if err = walkFn(path, fi, nil); err != nil {
+			if walkErr = walkFn(path, fi, nil); walkErr != nil {
 				return false
 			}
 
@@ -87,6 +88,9 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 			}
 			return true
 		})
+		if walkErr != nil {
+			return walkErr
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 51c3914c84e278988bde4e0cdfdf82bda7df7e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:09 +0000
Subject: [PATCH 03/61] fix: stop directory iteration on a read error

The error was recorded but decoding went on and cleared it again.
---
 pkg/iso9660/walk.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 38c24dc..72d46b7 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -517,6 +517,7 @@ func (it *DirectoryRecordIterator) Next() bool {
 				return false
 			}
 			it.err = err
+			return false
 		}
 
 		if rlen == 0 {
-- 
2.43.0


From 22b2ebbe968ecb1c0fa60b01903a6a969735fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:10 +0000
Subject: [PATCH 04/61] fix: compute directory byte offsets in 64 bits

Directories and continuation areas beyond 4 GiB were read from a wrapped offset.
---
 pkg/iso9660/walk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 72d46b7..d87a9ff 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -297,9 +297,9 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 		switch v := entry.(type) {
 		case *susp.ContinuationAreaEntry:
 
-			ceStart := v.ContinuationStart()*LogicalBlockSize + v.ContinuationOffset()
+			ceStart := int64(v.ContinuationStart())*LogicalBlockSize + int64(v.ContinuationOffset())
 			ceLen := v.ContinuationLength()
-			ce := io.NewSectionReader(iso, int64(ceStart), int64(ceLen))
+			ce := io.NewSectionReader(iso, ceStart, int64(ceLen))
 			more, err := DecodeSystemUseEntries(ce)
 			if err != nil {
 				return nil, err
@@ -473,7 +473,7 @@ func (it *ReadDirIterator) FileInfoAndLen() (*FileInfo, int64) {
 // DirectoryRecords for a directory with start and size and off offset
 // into the directory.
 func NewDirectoryRecordIterator(iso io.ReaderAt, start LogicalBlockAddress, size int64, off int64) *DirectoryRecordIterator {
-	dir := io.NewSectionReader(iso, int64(start*LogicalBlockSize), size)
+	dir := io.NewSectionReader(iso, int64(start)*LogicalBlockSize, size)
 	_, err := dir.Seek(off, io.SeekStart)
 	return &DirectoryRecordIterator{
 		dir:    dir,
-- 
2.43.0


From 2ffb8b331bf37b8cd81265bfe6d6ae52401b2747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:11 +0000
Subject: [PATCH 05/61] fix: do not share path slices between entries queued by
 Walker.Walk

Appending to the same backing array could overwrite the path of a sibling directory.
---
 pkg/iso9660/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index d87a9ff..c4860e0 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -82,7 +82,7 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 
 			if fi.IsDir() && fi.Name() != "." && fi.Name() != ".." {
 				q.Enqueue(&walkItem{
-					parts: append(item.parts, fi.Name()),
+					parts: append(item.parts[:len(item.parts):len(item.parts)], fi.Name()),
 					fi:    fi,
 				})
 			}
-- 
2.43.0


From 24a851e88d4bd5210a6fefd14575fc6b8f13a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:12 +0000
Subject: [PATCH 06/61] fix: keep the cached path prefix when lstat continues
 from a cached directory

Entries below a cached directory were cached under a path without that
prefix, and a cached regular file was read as if it were a directory.
---
 pkg/iso9660/walk.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index c4860e0..2f6e062 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -185,7 +185,8 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 	var start LogicalBlockAddress
 	var size int64
 	var cached *FileInfo
-	cached, parts = w.lstatCacheSearch(append([]string{"."}, parts...))
+	all := append([]string{"."}, parts...)
+	cached, parts = w.lstatCacheSearch(all)
 	if cached == nil {
 		var pvd PrimaryVolumeDescriptor
 		pvdSector := io.NewSectionReader(w.iso, 16*LogicalBlockSize, LogicalBlockSize)
@@ -196,13 +197,17 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 		start = pvd.RootStart
 		size = int64(pvd.RootLength)
 	} else if len(parts) > 0 {
+		if !cached.IsDir() {
+			return nil, syscall.ENOTDIR
+		}
 		start = cached.Extent()
 		size = cached.Size()
 	} else {
 		return cached, nil
 	}
 
-	var path []string
+	consumed := len(all) - len(parts)
+	path := all[:consumed:consumed]
 	for len(parts) > 0 {
 		part := parts[0]
 		parts = parts[1:]
-- 
2.43.0


From 51f2c76a39cc90bd2430f96b87b202bcb37bcdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:13 +0000
Subject: [PATCH 07/61] fix: do not dereference a missing modification
 timestamp

---
 pkg/iso9660/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 2f6e062..2618899 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -447,7 +447,7 @@ func (it *ReadDirIterator) Next() bool {
 
 	modTime := time.Unix(0, 0).UTC()
 
-	if ts, ok := rrip.DecodeTimestamps(systemUse); ok {
+	if ts, ok := rrip.DecodeTimestamps(systemUse); ok && ts.Modified != nil {
 		modTime = ts.Modified.UTC()
 	}
 
-- 
2.43.0


From 4e1416096a727ed4e6da9f6065badcd08a9bed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:44 +0000
Subject: [PATCH 08/61] fix: report errors of building the index message

---
 pkg/vdisc/builder.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index 970ffa0..e31400a 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -211,7 +211,9 @@ func (b *builder) Build() (string, error) {
 	}
 
 	vdisc.SetBlockSize(iso9660.LogicalBlockSize)
-	vdisc.SetFsType("iso9660")
+	if err := vdisc.SetFsType("iso9660"); err != nil {
+		return "", errors.Wrap(err, "vdisc.SetFsType")
+	}
 
 	//
 	// Populate the inverted trie of URIs
@@ -224,7 +226,9 @@ func (b *builder) Build() (string, error) {
 	for i, inode := range inverted {
 		node := uris.At(i)
 		node.SetParent(safecast.IntToUint32(inode.Parent))
-		node.SetContent(inode.Content)
+		if err := node.SetContent(inode.Content); err != nil {
+			return "", errors.Wrap(err, "node.SetContent")
+		}
 	}
 
 	//
@@ -241,13 +245,15 @@ func (b *builder) Build() (string, error) {
 	entry := extents.At(0)
 	metaLeaf := leaves[0]
 	entry.SetUriPrefix(safecast.IntToUint32(metaLeaf.Parent))
-	entry.SetUriSuffix(metaLeaf.Content)
+	if err := entry.SetUriSuffix(metaLeaf.Content); err != nil {
+		return "", errors.Wrap(err, "entry.SetUriSuffix")
+	}
 
 	entry.SetBlocks(metaBlocks)
 	entry.SetPadding(metaPadding)
 
 	currExtent := 1
-	b.volume.VisitFileInodes(func(finode *iso9660.FileInode) error {
+	err = b.volume.VisitFileInodes(func(finode *iso9660.FileInode) error {
 		obj := finode.Object()
 		blocks := bytesToSectors(obj.Size())
 		padding := uint16(sectorsToBytes(blocks) - obj.Size())
@@ -255,13 +261,18 @@ func (b *builder) Build() (string, error) {
 		entry := extents.At(currExtent)
 		leaf := leaves[finode.Start()]
 		entry.SetUriPrefix(safecast.IntToUint32(leaf.Parent))
-		entry.SetUriSuffix(leaf.Content)
+		if err := entry.SetUriSuffix(leaf.Content); err != nil {
+			return err
+		}
 		entry.SetBlocks(blocks)
 		entry.SetPadding(padding)
 
 		currExtent++
 		return nil
 	})
+	if err != nil {
+		return "", errors.Wrap(err, "adding extents")
+	}
 	zap.L().Debug("done building capnp message")
 
 	zap.L().Debug("writing capnp message")
-- 
2.43.0


From c399cf19ce6ed4daa81cc6bea77e1936d14bf5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:45 +0000
Subject: [PATCH 09/61] fix: give files that share a URL a valid extent

Only the last file with a URL had a trie leaf under its own address, so the
other extents were written with an empty URL.
---
 pkg/vdisc/builder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index e31400a..31c1094 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -18,6 +18,7 @@ import (
 	"bufio"
 	"compress/gzip"
 	"context"
+	"fmt"
 	"io"
 	stdurl "net/url"
 	"path"
@@ -259,7 +260,12 @@ func (b *builder) Build() (string, error) {
 		padding := uint16(sectorsToBytes(blocks) - obj.Size())
 
 		entry := extents.At(currExtent)
-		leaf := leaves[finode.Start()]
+		// files with the same URL share one leaf
+		start, ok := trie.Get(obj.URL())
+		if !ok {
+			return fmt.Errorf("no trie entry for %q", obj.URL())
+		}
+		leaf := leaves[start]
 		entry.SetUriPrefix(safecast.IntToUint32(leaf.Parent))
 		if err := entry.SetUriSuffix(leaf.Content); err != nil {
 			return err
-- 
2.43.0


From 52878421209538622b06cf97721304a95de670d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:46 +0000
Subject: [PATCH 10/61] fix: close the opened object when adding a file fails

---
 pkg/vdisc/builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index 31c1094..4951cd1 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -90,6 +90,7 @@ func (b *builder) AddFile(path string, url string, size int64) error {
 
 	err = b.volume.AddFile(path, r)
 	if err != nil {
+		r.Close()
 		return err
 	}
 
-- 
2.43.0


From b043969de78d5955f1f37a2ee69a63045dfb65da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:47 +0000
Subject: [PATCH 11/61] fix: refuse extents with more than 2^32 blocks instead
 of truncating

---
 pkg/vdisc/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index 4951cd1..ef30410 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -318,7 +318,7 @@ func (b *builder) Build() (string, error) {
 
 // Calculates the number of sectors needed to hold bytes. Zero bytes result in one sector.
 func bytesToSectors(bytes int64) uint32 {
-	sectors := uint32(bytes / iso9660.LogicalBlockSize)
+	sectors := safecast.Int64ToUint32(bytes / iso9660.LogicalBlockSize)
 	if (bytes%iso9660.LogicalBlockSize) != 0 || sectors == 0 {
 		sectors++
 	}
-- 
2.43.0


From 17f7178de37dda41be46fad6121b4bd6172b3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:04 +0000
Subject: [PATCH 12/61] fix: report a corrupt gzip header when loading a disc

---
 pkg/vdisc/loader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index e20bd09..41ed488 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -184,7 +184,10 @@ func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
 
 	var src io.Reader
 	if bytes.Equal(hdr, []byte{0x1f, 0x8b, 0x08, 0x00}) {
-		src, _ = gzip.NewReader(br)
+		src, err = gzip.NewReader(br)
+		if err != nil {
+			return nil, nil, err
+		}
 	} else {
 		src = br
 	}
-- 
2.43.0


From f68386bc8100e6264b7e56cfa7498b06cad6d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:05 +0000
Subject: [PATCH 13/61] fix: close the index object after it was copied

---
 pkg/vdisc/loader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 41ed488..02084a9 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -169,6 +169,7 @@ func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	defer res.Close()
 
 	r := io.NewSectionReader(res, 0, res.Size())
 
-- 
2.43.0


From a0eed788a2c323dcbedc799f0f81245994655116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:06 +0000
Subject: [PATCH 14/61] fix: unmap the index even if closing the image fails

---
 pkg/vdisc/loader.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 02084a9..870e209 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -226,11 +226,11 @@ type vdisc struct {
 }
 
 func (v *vdisc) Close() error {
-	if err := v.image.Close(); err != nil {
-		return err
+	err := v.image.Close()
+	if merr := v.mmapHandle.Close(); err == nil {
+		err = merr
 	}
-
-	return v.mmapHandle.Close()
+	return err
 }
 
 func (v *vdisc) FsType() string {
-- 
2.43.0


From 1792cd6696f3e6f6e3565f59c8d145c3c953c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:07 +0000
Subject: [PATCH 15/61] fix: keep absolute extent paths when the disc was
 opened by a relative path

---
 pkg/vdisc/extent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 63aa210..230390a 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -71,7 +71,7 @@ func (e *extent) URL() string {
 	}
 
 	resolved := e.baseURL.ResolveReference(u)
-	if !strings.HasPrefix(e.baseURL.Path, "/") {
+	if !strings.HasPrefix(e.baseURL.Path, "/") && !strings.HasPrefix(u.Path, "/") {
 		resolved.Path = strings.TrimPrefix(resolved.Path, "/")
 	}
 
-- 
2.43.0


From 500ed9d25131a9e7b05b3d6a5bd379083826c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:39 +0000
Subject: [PATCH 16/61] fix: fail ls -r when the walk fails

---
 pkg/vdisc/cli/ls.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/vdisc/cli/ls.go b/pkg/vdisc/cli/ls.go
index efe8954..5a6501c 100644
--- a/pkg/vdisc/cli/ls.go
+++ b/pkg/vdisc/cli/ls.go
@@ -44,7 +44,7 @@ func (cmd *LsCmd) Run(globals *Globals) error {
 	w := iso9660.NewWalker(v.Image())
 	if cmd.Recursive {
 		prevPath := cmd.Path
-		w.Walk(cmd.Path, func(path string, info os.FileInfo, err error) error {
+		if err := w.Walk(cmd.Path, func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				zap.L().Fatal("recursive listing", zap.String("path", path), zap.Error(err))
 			}
@@ -55,7 +55,9 @@ func (cmd *LsCmd) Run(globals *Globals) error {
 
 			cmd.listFile(info)
 			return nil
-		})
+		}); err != nil {
+			zap.L().Fatal("recursive listing", zap.String("path", cmd.Path), zap.Error(err))
+		}
 	} else {
 		fi, err := w.Lstat(cmd.Path)
 		if err != nil {
-- 
2.43.0


From 3479dfb4c6deb86d6326febefae8bd9aba8f3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:41 +0000
Subject: [PATCH 17/61] fix: do not send a request whose signing failed

---
 pkg/s3util/signer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/s3util/signer.go b/pkg/s3util/signer.go
index d119aae..513077a 100644
--- a/pkg/s3util/signer.go
+++ b/pkg/s3util/signer.go
@@ -122,9 +122,9 @@ func (s *signer) RoundTrip(req *http.Request) (*http.Response, error) {
 		debugln("Signing request with no body...")
 		_, err = s.v4.Sign(req, nil, "s3", s.region, t)
 	default:
-		d, err := ioutil.ReadAll(req.Body)
-		if err != nil {
-			return nil, err
+		d, rerr := ioutil.ReadAll(req.Body)
+		if rerr != nil {
+			return nil, rerr
 		}
 		req.Body = ioutil.NopCloser(bytes.NewReader(d))
 		debugln("Signing request with body...")
-- 
2.43.0


From 52961227680814319d1411db4cff8d735c5e364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:42 +0000
Subject: [PATCH 18/61] fix: continue version listings at the marker the server
 returned

---
 pkg/s3util/listbucket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index 5b8809e..c1f3d3e 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -91,7 +91,7 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 		nextUrl := url
 		if nextVersionId != nil || nextKey != nil {
 			if nextKey != nil && nextVersionId != nil {
-				nextUrl = fmt.Sprintf("%s&key-marker=%s&verion-id-marker%s", url, stdurl.QueryEscape(*nextKey), stdurl.QueryEscape(*nextVersionId))
+				nextUrl = fmt.Sprintf("%s&key-marker=%s&version-id-marker=%s", url, stdurl.QueryEscape(*nextKey), stdurl.QueryEscape(*nextVersionId))
 			} else if nextKey != nil {
 				nextUrl = fmt.Sprintf("%s&key-marker=%s", url, stdurl.QueryEscape(*nextKey))
 			} else if nextVersionId != nil {
-- 
2.43.0


From 1e89025af3488f3be2d3fe665ec7d36abb623c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:44 +0000
Subject: [PATCH 19/61] fix: close each bucket listing response before fetching
 the next page

---
 pkg/s3util/listbucket.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index c1f3d3e..b17438e 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -17,7 +17,6 @@ package s3util
 import (
 	"encoding/xml"
 	"fmt"
-	"io"
 	"io/ioutil"
 	"net/http"
 	stdurl "net/url"
@@ -105,24 +104,18 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 		} else if resp == nil {
 			return fmt.Errorf("s3 readdir: nil response without error")
 		}
-		defer resp.Body.Close()
+		body, err := ioutil.ReadAll(resp.Body)
+		resp.Body.Close()
+		if err != nil {
+			return err
+		}
 
 		if (nextVersionId == nil && nextKey == nil) && resp.StatusCode == 404 {
-			io.Copy(ioutil.Discard, resp.Body)
 			return os.ErrNotExist
 		}
 
 		if resp.StatusCode != 200 {
-			bodyText, err := ioutil.ReadAll(resp.Body)
-			if err != nil {
-				return err
-			}
-			return fmt.Errorf("s3 readdir: bad bucket listing %d %s", resp.StatusCode, bodyText)
-		}
-
-		body, err := ioutil.ReadAll(resp.Body)
-		if err != nil {
-			return err
+			return fmt.Errorf("s3 readdir: bad bucket listing %d %s", resp.StatusCode, body)
 		}
 
 		var page ListBucketPage
-- 
2.43.0


From 09cd965e1975391a0c4ce5dd5c0d4e458e43982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:46 +0000
Subject: [PATCH 20/61] fix: use distinct context keys for the storage drivers

---
 pkg/storage/http/context.go  |  8 +++++---
 pkg/storage/s3/context.go    |  8 +++++---
 pkg/storage/swift/context.go | 10 ++++++----
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pkg/storage/http/context.go b/pkg/storage/http/context.go
index b6f8e74..ec3159d 100644
--- a/pkg/storage/http/context.go
+++ b/pkg/storage/http/context.go
@@ -19,9 +19,11 @@ import (
 	"time"
 )
 
-var (
-	ctxAuthzKey   int
-	ctxTimeoutKey int
+type ctxKey int
+
+const (
+	ctxAuthzKey ctxKey = iota
+	ctxTimeoutKey
 )
 
 func CtxWithAuthz(ctx context.Context, authz string) context.Context {
diff --git a/pkg/storage/s3/context.go b/pkg/storage/s3/context.go
index b734dae..fcb2674 100644
--- a/pkg/storage/s3/context.go
+++ b/pkg/storage/s3/context.go
@@ -21,9 +21,11 @@ import (
 	"github.com/aws/aws-sdk-go/aws/credentials"
 )
 
-var (
-	ctxCredentialsKey int
-	ctxTimeoutKey     int
+type ctxKey int
+
+const (
+	ctxCredentialsKey ctxKey = iota
+	ctxTimeoutKey
 )
 
 func CtxWithCredentials(ctx context.Context, creds *credentials.Credentials) context.Context {
diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index 9aaf364..f575da3 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -19,10 +19,12 @@ import (
 	"time"
 )
 
-var (
-	ctxCredentialsKey int
-	ctxRegionKey      int
-	ctxTimeoutKey     int
+type ctxKey int
+
+const (
+	ctxCredentialsKey ctxKey = iota
+	ctxRegionKey
+	ctxTimeoutKey
 )
 
 func CtxWithCredentials(ctx context.Context, creds *SwiftCreds) context.Context {
-- 
2.43.0


From 02ee78e120680c965768eecab05362ba64cd85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:47 +0000
Subject: [PATCH 21/61] fix: store the swift region under its own context key

---
 pkg/storage/swift/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index f575da3..d4a2aa6 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -46,7 +46,7 @@ func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
 }
 
 func CtxWithRegion(ctx context.Context, region string) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, region)
+	return context.WithValue(ctx, ctxRegionKey, region)
 }
 
 func RegionFromCtx(ctx context.Context) (string, bool) {
-- 
2.43.0


From 33cae3084002b1028304d7d8e926dac109f138ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:48 +0000
Subject: [PATCH 22/61] fix: reset a memory cache block when read-ahead fails

---
 pkg/caching/mem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/caching/mem.go b/pkg/caching/mem.go
index bd2d1ce..f8c95bb 100644
--- a/pkg/caching/mem.go
+++ b/pkg/caching/mem.go
@@ -192,6 +192,10 @@ func (b *memBuf) Fill(key string, ff memBufFillFunc) (err error) {
 		b.key = key
 		b.n, err = ff(b.buf)
 	}
+	if err != nil {
+		b.key = ""
+		b.n = 0
+	}
 	return
 }
 
-- 
2.43.0


From 50513b68c6c58a47a07d05f4d6a5711884a4755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:50 +0000
Subject: [PATCH 23/61] fix: close the cache object after the double check

---
 pkg/caching/disk.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index b86afc2..4d4f7ee 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -262,6 +262,7 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 	// Double check that we didn't lose the race trying to write to the cache
 	cobj, serr := storage.Open(fname)
 	if serr == nil {
+		defer cobj.Close()
 		switch xobj := cobj.(type) {
 		case driver.XattrObject:
 			ckey, xerr := xobj.GetXattr(XattrKey)
-- 
2.43.0


From a17857ba3758d444847479376c0d0bf642415af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:51 +0000
Subject: [PATCH 24/61] fix: return the cache buffer to the pool when the
 source read fails

---
 pkg/caching/disk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index 4d4f7ee..a9e366f 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -288,11 +288,13 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 	m, rerr := io.ReadFull(src, b[:ds.size])
 	if rerr != nil {
 		// Reading from the source failed, nothing we can do.
+		ds.bufPool.Put(b)
 		unlock()
 		err = rerr
 		return
 	} else if int64(m) < ds.size {
 		// Uh oh. The source wasn't as big as we thought?!
+		ds.bufPool.Put(b)
 		unlock()
 		err = io.ErrUnexpectedEOF
 		return
-- 
2.43.0


From 0829a6d37e5d41a7d508cdb0b5385ea3e450e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:53 +0000
Subject: [PATCH 25/61] fix: report a malformed cache checksum instead of
 panicking

---
 pkg/caching/disk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index a9e366f..e01f696 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -148,6 +148,9 @@ func (ds *DiskSlicer) CheckIntegrity() error {
 				return err
 			}
 
+			if len(csumEnc) != 8 {
+				return fmt.Errorf("Bad checksum xattr: %q", fname)
+			}
 			expected = binary.LittleEndian.Uint64(csumEnc)
 		default:
 			return fmt.Errorf("object missing checksum xattr: %q", fname)
-- 
2.43.0


From 94c1163d928ac1362d5863dc64d770c50dcca6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:45 +0000
Subject: [PATCH 26/61] fix: close each cache file after its integrity check

---
 pkg/caching/disk.go | 54 +++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index e01f696..491b860 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -131,39 +131,45 @@ func (ds *DiskSlicer) CheckIntegrity() error {
 			return nil
 		}
 
-		cobj, err := storage.Open(fname)
-		if err != nil {
-			if os.IsNotExist(err) {
-				continue
-			}
+		if err := checkIntegrity(fname); err != nil {
 			return err
 		}
-		defer cobj.Close()
-
-		var expected uint64
-		switch xobj := cobj.(type) {
-		case driver.XattrObject:
-			csumEnc, err := xobj.GetXattr(XattrChecksum)
-			if err != nil {
-				return err
-			}
+	}
+}
 
-			if len(csumEnc) != 8 {
-				return fmt.Errorf("Bad checksum xattr: %q", fname)
-			}
-			expected = binary.LittleEndian.Uint64(csumEnc)
-		default:
-			return fmt.Errorf("object missing checksum xattr: %q", fname)
+func checkIntegrity(fname string) error {
+	cobj, err := storage.Open(fname)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return nil
 		}
+		return err
+	}
+	defer cobj.Close()
 
-		csum := xxhash.New64()
-		if _, err := io.Copy(csum, cobj); err != nil {
+	var expected uint64
+	switch xobj := cobj.(type) {
+	case driver.XattrObject:
+		csumEnc, err := xobj.GetXattr(XattrChecksum)
+		if err != nil {
 			return err
 		}
 
-		if csum.Sum64() != expected {
-			return fmt.Errorf("Bad checksum: %q", fname)
+		if len(csumEnc) != 8 {
+			return fmt.Errorf("Bad checksum xattr: %q", fname)
 		}
+		expected = binary.LittleEndian.Uint64(csumEnc)
+	default:
+		return fmt.Errorf("object missing checksum xattr: %q", fname)
+	}
+
+	csum := xxhash.New64()
+	if _, err := io.Copy(csum, cobj); err != nil {
+		return err
+	}
+
+	if csum.Sum64() != expected {
+		return fmt.Errorf("Bad checksum: %q", fname)
 	}
 	return nil
 }
-- 
2.43.0


From d1cc4a4fdb0918c40ca5905af236581febd675d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:46 +0000
Subject: [PATCH 27/61] fix: read past the end of a concatenation with an empty
 last part

---
 pkg/storage/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/concat.go b/pkg/storage/concat.go
index 3807cdd..d62e355 100644
--- a/pkg/storage/concat.go
+++ b/pkg/storage/concat.go
@@ -106,7 +106,7 @@ func (c *concatenated) ReadAt(p []byte, off int64) (n int, err error) {
 	var wg sync.WaitGroup
 	var workItems []*workItem
 
-	c.parts.DescendLessOrEqual(part{off + int64(len(p)) - 1, nil}, func(i btree.Item) bool {
+	c.parts.DescendLessOrEqual(part{end - 1, nil}, func(i btree.Item) bool {
 		part := i.(part)
 
 		y := interval.Interval{part.Offset, part.Offset + part.Obj.Size()}
-- 
2.43.0


From 4fb5c36661add6da411c671f85503cc2b0938177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 28/61] fix: close every part of a concatenation

---
 pkg/storage/concat.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/concat.go b/pkg/storage/concat.go
index d62e355..78bb1c7 100644
--- a/pkg/storage/concat.go
+++ b/pkg/storage/concat.go
@@ -69,8 +69,10 @@ type concatenated struct {
 
 func (c *concatenated) Close() (err error) {
 	c.parts.Ascend(func(i btree.Item) bool {
-		err = i.(part).Obj.Close()
-		return err == nil
+		if cerr := i.(part).Obj.Close(); err == nil {
+			err = cerr
+		}
+		return true
 	})
 	return
 }
-- 
2.43.0


From 5c64a9a0a2dca30a39e342fd7abfe9a7d8aefaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:49 +0000
Subject: [PATCH 29/61] fix: wait for the s3 upload before reporting the commit

---
 pkg/storage/s3/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index 0b43593..b7d929b 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -112,7 +112,7 @@ func (ow *objectWriter) ReadFrom(r io.Reader) (int64, error) {
 func (ow *objectWriter) Write(b []byte) (int, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
 	}
@@ -123,7 +123,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		// Nothing written yet, start the writer now to produce a zero-byte file.
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		ow.pipeWriter.Close()
-- 
2.43.0


From 5c50087dabfcf9779acfa9fdccf84b890412e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:51 +0000
Subject: [PATCH 30/61] fix: do not commit an s3 object whose upload failed

---
 pkg/storage/s3/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index b7d929b..c7fa29e 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -91,6 +91,7 @@ func (ow *objectWriter) ReadFromContext(ctx context.Context, r io.Reader, counte
 			u.ProgressCounter = counter
 		})
 		if err != nil {
+			ow.err = err
 			return err
 		}
 		if resp.VersionID != nil {
-- 
2.43.0


From aafbbe8d3c7e11df849ae89461da33aee33b0a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:53 +0000
Subject: [PATCH 31/61] fix: do not create an s3 object after abort

---
 pkg/storage/s3/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index c7fa29e..582c86d 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -142,6 +142,8 @@ func (ow *objectWriter) Abort() {
 		// TODO: log error
 		ow.pipeWriter.CloseWithError(errors.New("abort file creation"))
 		ow.wg.Wait()
+	} else if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStateDirect) {
+		ow.err = errors.New("abort file creation")
 	}
 }
 
-- 
2.43.0


From 77c0a280a9382025dd5453e84c94d97386fa890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:54 +0000
Subject: [PATCH 32/61] fix: close the response of a failed attempt before
 retrying

---
 pkg/httputil/retry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index f17c43e..e6a6cfe 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -68,6 +68,10 @@ type retryingRoundTripper struct {
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
 	retry(func() (retry bool) {
+		if resp != nil {
+			// discard the response of the previous attempt
+			resp.Body.Close()
+		}
 		resp, err = r.rt.RoundTrip(req)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
 		if retry {
-- 
2.43.0


From 1dc048a0fb9fe5ac0f8096d34f0aea2bcfe481e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:55 +0000
Subject: [PATCH 33/61] fix: do not retry a request whose context is done

---
 pkg/httputil/retry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index e6a6cfe..7cd55a6 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -74,6 +74,9 @@ func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response
 		}
 		resp, err = r.rt.RoundTrip(req)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
+		if retry && req.Context().Err() != nil {
+			return false
+		}
 		if retry {
 			if err != nil {
 				warnf("retrying %s: %s\n", req.URL.String(), err)
-- 
2.43.0


From fb0d380728793485ed67446e48d68a77056a15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:56 +0000
Subject: [PATCH 34/61] fix: send the whole request body again when retrying

---
 pkg/httputil/retry.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index 7cd55a6..8615cf7 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -67,7 +67,16 @@ type retryingRoundTripper struct {
 }
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
+	attempts := 0
 	retry(func() (retry bool) {
+		if attempts++; attempts > 1 && req.GetBody != nil {
+			// the previous attempt consumed the body
+			body, berr := req.GetBody()
+			if berr != nil {
+				return false
+			}
+			req.Body = body
+		}
 		if resp != nil {
 			// discard the response of the previous attempt
 			resp.Body.Close()
@@ -77,6 +86,10 @@ func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response
 		if retry && req.Context().Err() != nil {
 			return false
 		}
+		if retry && req.Body != nil && req.Body != http.NoBody && req.GetBody == nil {
+			// the body can not be sent again
+			return false
+		}
 		if retry {
 			if err != nil {
 				warnf("retrying %s: %s\n", req.URL.String(), err)
-- 
2.43.0


From c4586a02600fe38bfac67a013728a1049601617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:58 +0000
Subject: [PATCH 35/61] fix: do not panic when a round robin host is evicted

---
 pkg/httputil/rr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 79cb3e4..679f16b 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -166,6 +166,7 @@ func newHostRoundRobinTransport(host string, cfg RoundRobinTransportConfig) *hos
 		host: host,
 		cfg:  cfg,
 		rand: rand.New(rand.NewSource(time.Now().UnixNano())),
+		done: make(chan interface{}),
 	}
 	// ensure Resolve() has been run at least once
 	t.Resolve()
-- 
2.43.0


From 195aca135fef1715c9457184e277383ff635964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:59 +0000
Subject: [PATCH 36/61] fix: do not overwrite directories still to be visited

---
 pkg/storage/driver/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index f59ccbc..fd74cab 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -117,7 +117,7 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 			// If in depth-first mode, we want to keep grabbing the top of the stack and process only that each iteration.
 			amt := len(nextPaths) - minI(len(nextPaths), maxWorkers)
 			paths = nextPaths[amt:]
-			nextPaths = nextPaths[:amt]
+			nextPaths = nextPaths[:amt:amt]
 		} else {
 			paths = nextPaths
 			nextPaths = make([]string, 0)
-- 
2.43.0


From 12dad8d97533208831bd5ff685c183a654ab65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:00 +0000
Subject: [PATCH 37/61] fix: let the visit feeder finish when the visit is
 cancelled

---
 pkg/storage/driver/visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index fd74cab..86f20f9 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -139,7 +139,10 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 		// Feed workers.
 		go func() {
 			for _, p := range paths {
-				inputPaths <- p
+				select {
+				case inputPaths <- p:
+				case <-ctx.Done():
+				}
 			}
 			// Signal there's no more work.
 			close(inputPaths)
-- 
2.43.0


From 963a38f150f9d6e9a9437c5496420ea98f0c5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:01 +0000
Subject: [PATCH 38/61] fix: do not lose a visit error that arrives with the
 last result

---
 pkg/storage/driver/visitor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index 86f20f9..4d26ff7 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -166,6 +166,16 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 				return ctx.Err()
 			}
 		}
+
+		// The results may be complete while an error is still pending.
+		select {
+		case err := <-errors:
+			return err
+		default:
+		}
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 889b504113bfc68cba745aacae461e2cee1c0ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:47 +0000
Subject: [PATCH 39/61] fix: decode symlinks that end in a dot component

---
 pkg/iso9660/rrip/sl.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index e3c7e19..259ded1 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -228,23 +228,16 @@ func DecodeSymlink(entries []susp.SystemUseEntry) (string, bool) {
 
 			if comp.Flags()&SymlinkComponentFlagCurrent != 0 {
 				parts = append(parts, ".")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagParent != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagParent != 0 {
 				parts = append(parts, "..")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagRoot != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagRoot != 0 {
 				parts = append(parts, "")
-				continue
-			}
-
-			partial = partial + comp.Data()
-			if comp.Flags()&SymlinkComponentFlagContinue == 0 {
-				parts = append(parts, partial)
-				partial = ""
+			} else {
+				partial = partial + comp.Data()
+				if comp.Flags()&SymlinkComponentFlagContinue == 0 {
+					parts = append(parts, partial)
+					partial = ""
+				}
 			}
 			if !v.Continue() {
 				return strings.Join(parts, string(os.PathSeparator)), true
-- 
2.43.0


From 24169cb07a64c03827090d79a1bae001235c401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:48 +0000
Subject: [PATCH 40/61] fix: do not close a missing object when an unknown
 handle is released

---
 pkg/isofuse/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/isofuse/file.go b/pkg/isofuse/file.go
index 53ff241..8c7815b 100644
--- a/pkg/isofuse/file.go
+++ b/pkg/isofuse/file.go
@@ -60,9 +60,9 @@ func (fs *isoFS) ReleaseFileHandle(ctx context.Context, op *fuseops.ReleaseFileH
 	obj, ok := fs.fileHandles[op.Handle]
 	if !ok {
 		fs.logger.Warn("release of unknown file handle", zap.Uint64("handle", uint64(op.Handle)))
-	} else {
-		delete(fs.fileHandles, op.Handle)
+		return nil
 	}
+	delete(fs.fileHandles, op.Handle)
 	if err := obj.Close(); err != nil {
 		fs.logger.Error("close file handle", zap.Uint64("handle", uint64(op.Handle)), zap.Error(err))
 	}
-- 
2.43.0


From f1eaa5949ae33f00344bf253a29a9155968de761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:49 +0000
Subject: [PATCH 41/61] fix: honour the size limit when opening a ram object

---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 9664449..0596831 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -74,7 +74,7 @@ func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Objec
 
 	return &object{
 		url: pathToUrl(path),
-		br:  bytes.NewReader(it.File),
+		br:  bytes.NewReader(data),
 	}, nil
 }
 
-- 
2.43.0


From ecf1b9757367deb4b97dc7be49c07d0d85151003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:50 +0000
Subject: [PATCH 42/61] fix: close the file when its size can not be read

---
 pkg/storage/file/file.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/file/file.go b/pkg/storage/file/file.go
index 78795ba..05088a3 100644
--- a/pkg/storage/file/file.go
+++ b/pkg/storage/file/file.go
@@ -48,6 +48,7 @@ func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Objec
 	if size < 0 {
 		finfo, err := f.Stat()
 		if err != nil {
+			f.Close()
 			return nil, err
 		}
 		size = finfo.Size()
-- 
2.43.0


From bf2e0d29db561f13414f387f43d07d210d311191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:51 +0000
Subject: [PATCH 43/61] fix: reject an unknown log level

---
 cmd/vdisc/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/vdisc/main.go b/cmd/vdisc/main.go
index 4679c6b..2121d01 100644
--- a/cmd/vdisc/main.go
+++ b/cmd/vdisc/main.go
@@ -59,7 +59,9 @@ func main() {
 	)
 
 	var ll zapcore.Level
-	ll.Set(cli.Globals.LogLevel)
+	if err := ll.Set(cli.Globals.LogLevel); err != nil {
+		logger.Fatal("log level", zap.Error(err))
+	}
 	logAtomic.SetLevel(ll)
 
 	if err := ctx.Run(&cli.Globals); err != nil {
-- 
2.43.0


From 92fda714a3982ed51d44ea889e4b569683a6d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:52 +0000
Subject: [PATCH 44/61] fix: record timestamps with a UTC offset of zero

---
 pkg/iso9660/datetime/datetime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/datetime/datetime.go b/pkg/iso9660/datetime/datetime.go
index fa4ebd2..5186708 100644
--- a/pkg/iso9660/datetime/datetime.go
+++ b/pkg/iso9660/datetime/datetime.go
@@ -33,7 +33,7 @@ func NewDecDateTime(t time.Time) DecDateTime {
 	copy(result[10:12], fmt.Sprintf("%02d", t.Minute()))
 	copy(result[12:14], fmt.Sprintf("%02d", t.Second()))
 	copy(result[14:16], fmt.Sprintf("%02d", t.Nanosecond()/10000000)) // Hundredths of a second
-	result[16] = 50
+	result[16] = 0 // UTC
 
 	return result
 }
@@ -60,7 +60,7 @@ func NewEntryDateTime(t time.Time) EntryDateTime {
 	result[3] = byte(t.Hour())
 	result[4] = byte(t.Minute())
 	result[5] = byte(t.Second())
-	result[6] = 50
+	result[6] = 0 // UTC
 	return result
 }
 
-- 
2.43.0


From 47c76e009c60af13db14bb9c68c5b1d2e24cbe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:54 +0000
Subject: [PATCH 45/61] fix: dial IPv6 round robin addresses

---
 pkg/httputil/rr.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 679f16b..c0f7508 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -22,7 +22,6 @@ import (
 	"math/rand"
 	"net"
 	"net/http"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -289,6 +288,9 @@ func (d *staticIPDialer) Dial(network string, addr string) (conn net.Conn, err e
 }
 
 func (d *staticIPDialer) DialContext(ctx context.Context, network string, addr string) (conn net.Conn, err error) {
-	separator := strings.LastIndex(addr, ":")
-	return d.dial(ctx, network, d.ipaddr+addr[separator:])
+	_, port, err := net.SplitHostPort(addr)
+	if err != nil {
+		return nil, err
+	}
+	return d.dial(ctx, network, net.JoinHostPort(d.ipaddr, port))
 }
-- 
2.43.0


From 0669f3ea32b44406dd52ae0abd33c54a9e4b06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:36 +0000
Subject: [PATCH 46/61] fix: number path table parents from one

---
 pkg/iso9660/directoryinode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 493a07d..a11275f 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -356,7 +356,7 @@ func (d *DirectoryInode) toDirectory(contStart LogicalBlockAddress) (Directory,
 
 //ToPathTable computes the PathTable for the inode
 func (d *DirectoryInode) ToPathTable() PathTable {
-	var idx uint16
+	idx := uint16(1) // directory numbers start at one
 	indices := make(map[Inode]uint16)
 	var table PathTable
 
-- 
2.43.0


From e6e32cfbc5e47a2428f8a3b038a6b65a967b9e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:37 +0000
Subject: [PATCH 47/61] fix: report a failed close of the cp output

---
 pkg/vdisc/cli/cp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vdisc/cli/cp.go b/pkg/vdisc/cli/cp.go
index bfc7d4a..19c1e11 100644
--- a/pkg/vdisc/cli/cp.go
+++ b/pkg/vdisc/cli/cp.go
@@ -63,5 +63,5 @@ func (cmd *CpCmd) Run(globals *Globals) error {
 		return err
 	}
 
-	return nil
+	return out.Close()
 }
-- 
2.43.0


From 07ac77ff59cc4c0f20ff3c6f77df5c71e3366093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:39 +0000
Subject: [PATCH 48/61] fix: use the context credentials when creating a swift
 object

---
 pkg/storage/swift/swift.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index c8b3980..6ced879 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -62,7 +62,12 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		return nil, err
 	}
 
-	creds := credentials.NewCredentials(NewSwiftEnvProvider(parsed.Account))
+	var prov credentials.Provider
+	if creds, ok := CredentialsFromCtx(ctx); ok {
+		prov = NewSwiftCtxProvider(parsed.Account, creds)
+	} else {
+		prov = NewSwiftEnvProvider(parsed.Account)
+	}
 
 	region, ok := RegionFromCtx(ctx)
 	if !ok {
@@ -73,7 +78,7 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		WithRegion(region).
 		WithEndpoint(fmt.Sprintf("https://%s", parsed.URL.Host)).
 		WithS3ForcePathStyle(true).
-		WithCredentials(creds).
+		WithCredentials(credentials.NewCredentials(prov)).
 		WithMaxRetries(100)
 
 	svc := s3.New(d.sess, config)
-- 
2.43.0


From 5f166e558dbce5452f8a62d69fe126796a4f95d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:41 +0000
Subject: [PATCH 49/61] fix: report a request body that can not be renewed

---
 pkg/httputil/retry.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index 8615cf7..0935d09 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -69,18 +69,19 @@ type retryingRoundTripper struct {
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
 	attempts := 0
 	retry(func() (retry bool) {
+		if resp != nil {
+			// discard the response of the previous attempt
+			resp.Body.Close()
+		}
 		if attempts++; attempts > 1 && req.GetBody != nil {
 			// the previous attempt consumed the body
 			body, berr := req.GetBody()
 			if berr != nil {
+				resp, err = nil, berr
 				return false
 			}
 			req.Body = body
 		}
-		if resp != nil {
-			// discard the response of the previous attempt
-			resp.Body.Close()
-		}
 		resp, err = r.rt.RoundTrip(req)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
 		if retry && req.Context().Err() != nil {
-- 
2.43.0


From 8d63f71fb4b891a545da556699a0cbe8697cd3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:42 +0000
Subject: [PATCH 50/61] fix: log the extended attribute error of a cache file

---
 pkg/caching/disk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index 491b860..ffaeb82 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -226,7 +226,7 @@ func (ds *diskSlice) ReadAt(p []byte, off int64) (n int, err error) {
 						cacheLogger().Debug("cache collision", zap.String("expected", string(ds.key)), zap.String("actual", string(ckey)))
 					}
 				} else {
-					cacheLogger().Error("getxattr", zap.Error(err))
+					cacheLogger().Error("getxattr", zap.Error(xerr))
 				}
 			}
 		}
-- 
2.43.0


From 3e7b696f78605b725cf024521175ad03e8a57de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:44 +0000
Subject: [PATCH 51/61] fix: close the cache file of a missed lookup before
 trying again

A lookup that misses is repeated after another process filled the block.
Each round opened the cache file and closed it only when the read returned.
---
 pkg/caching/disk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index ffaeb82..53e28d9 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -212,8 +212,6 @@ func (ds *diskSlice) ReadAt(p []byte, off int64) (n int, err error) {
 	for {
 		cobj, cerr := storage.Open(ds.cacheFname())
 		if cerr == nil {
-			defer cobj.Close()
-
 			switch xobj := cobj.(type) {
 			case driver.XattrObject:
 				ckey, xerr := xobj.GetXattr(XattrKey)
@@ -221,6 +219,7 @@ func (ds *diskSlice) ReadAt(p []byte, off int64) (n int, err error) {
 					if bytes.Equal(ckey, ds.key) {
 						// TODO: increment cache hit
 						n, err = cobj.ReadAt(p, off)
+						cobj.Close()
 						return
 					} else {
 						cacheLogger().Debug("cache collision", zap.String("expected", string(ds.key)), zap.String("actual", string(ckey)))
@@ -229,6 +228,7 @@ func (ds *diskSlice) ReadAt(p []byte, off int64) (n int, err error) {
 					cacheLogger().Error("getxattr", zap.Error(xerr))
 				}
 			}
+			cobj.Close()
 		}
 		if !os.IsNotExist(cerr) {
 			cacheLogger().Error("cache read error", zap.Error(cerr))
-- 
2.43.0


From 0a2f418117008b688b8c9d8a5c5e146e5020d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:45 +0000
Subject: [PATCH 52/61] fix: do not copy the filesystem when a directory handle
 is released

The value receiver copied the locks and the tables they protect without
holding the locks.
---
 pkg/isofuse/dir.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/isofuse/dir.go b/pkg/isofuse/dir.go
index d4e8bfc..0bbc643 100644
--- a/pkg/isofuse/dir.go
+++ b/pkg/isofuse/dir.go
@@ -150,7 +150,7 @@ func (fs *isoFS) OpenDir(ctx context.Context, op *fuseops.OpenDirOp) error {
 
 // ReleaseDirHandle is a nop added to avoid error logs. sent by kernel when there are
 // no more references to dir handle and all file descriptor are closed.
-func (fs isoFS) ReleaseDirHandle(ctx context.Context, op *fuseops.ReleaseDirHandleOp) error {
+func (fs *isoFS) ReleaseDirHandle(ctx context.Context, op *fuseops.ReleaseDirHandleOp) error {
 	return nil
 }
 
-- 
2.43.0


From 9cc073fee5a5b553ae733887afac4839237358da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:10 +0000
Subject: [PATCH 53/61] fix: find out the size of a remote object before
 seeking in it

Seeking relative to the end failed until something else had asked for the
size, and the size was read without waiting for the request that sets it.
---
 pkg/storage/http/object.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index 71b1ec1..588b257 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -168,6 +168,13 @@ func (o *object) Seek(offset int64, whence int) (int64, error) {
 		return 0, os.ErrClosed
 	}
 
+	// make sure we've computed the object size
+	o.Size()
+
+	if o.sizeErr != nil {
+		return 0, o.sizeErr
+	}
+
 	switch whence {
 	case io.SeekCurrent:
 		o.pos = o.pos + offset
-- 
2.43.0


From 99d1419b0e7460a859b1b720e8c91da96d546e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:54 +0000
Subject: [PATCH 54/61] fix: do not report success when a failed ram commit is
 repeated

---
 pkg/storage/ram/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/storage/ram/writer.go b/pkg/storage/ram/writer.go
index 151b44a..ff0e2d9 100644
--- a/pkg/storage/ram/writer.go
+++ b/pkg/storage/ram/writer.go
@@ -45,6 +45,8 @@ func (w *writer) Write(b []byte) (int, error) {
 func (w *writer) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&w.state, stateCreating, stateClosed) {
 		if err := w.commit(w.path, w.buf.Bytes()); err != nil {
+			// a later commit must not report success
+			atomic.StoreInt32(&w.state, stateAborted)
 			return nil, err
 		}
 		return driver.NewCommitInfo(w.url), nil
-- 
2.43.0


From 06dcafcbd19112d0bf6d9d858dbf9163eb6549e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:37 +0000
Subject: [PATCH 55/61] fix: refuse volumes with more than 2^32 blocks instead
 of reusing addresses

---
 pkg/iso9660/sectorallocator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/iso9660/sectorallocator.go b/pkg/iso9660/sectorallocator.go
index 2e1cd3d..d8af550 100644
--- a/pkg/iso9660/sectorallocator.go
+++ b/pkg/iso9660/sectorallocator.go
@@ -32,6 +32,9 @@ func NewSectorAllocator() *SectorAllocator {
 func (sa *SectorAllocator) Alloc(numBytes uint32) LogicalBlockAddress {
 	result := sa.next
 	sa.next += LogicalBlockAddress(bytesToSectors(numBytes))
+	if sa.next <= result {
+		panic("overflow")
+	}
 	return result
 }
 
-- 
2.43.0


From 33cbd6e7040d3e76787b107367d37fe730c55c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:38 +0000
Subject: [PATCH 56/61] fix: refuse an index whose extents exceed the
 addressable blocks

---
 pkg/vdisc/loader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 870e209..4c0e419 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -130,7 +130,12 @@ func Load(url string, cache caching.Cache) (VDisc, error) {
 			parts = append(parts, padObj)
 		}
 
-		pos += iso9660.LogicalBlockAddress(blocks)
+		end := pos + iso9660.LogicalBlockAddress(blocks)
+		if end < pos {
+			mmapHandle.Close()
+			return nil, fmt.Errorf("extent %d ends after the last addressable block", i)
+		}
+		pos = end
 	}
 
 	return &vdisc{
-- 
2.43.0


From 8d652fcfae1a38b4b3d7a1c0eec698613504d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:25 +0000
Subject: [PATCH 57/61] fix: refuse an extensions reference longer than its
 length field

---
 pkg/iso9660/susp/er.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/susp/er.go b/pkg/iso9660/susp/er.go
index 9bd6457..2c0afdc 100644
--- a/pkg/iso9660/susp/er.go
+++ b/pkg/iso9660/susp/er.go
@@ -40,7 +40,11 @@ func NewExtensionsReferenceEntry(version byte, identifier string, descriptor str
 	if len(source) > math.MaxUint8 {
 		return nil, errors.New("source too long")
 	}
-	return &ExtensionsReferenceEntry{version, identifier, descriptor, source}, nil
+	er := &ExtensionsReferenceEntry{version, identifier, descriptor, source}
+	if er.Len() > math.MaxUint8 {
+		return nil, errors.New("extensions reference too long")
+	}
+	return er, nil
 }
 
 func (er *ExtensionsReferenceEntry) Len() int {
-- 
2.43.0


From 103c60927729648f061e50b2673e29e46ca66206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:25 +0000
Subject: [PATCH 58/61] fix: count the data of every symlink component in its
 length

---
 pkg/iso9660/rrip/sl.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index 259ded1..faef2b9 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -93,14 +93,6 @@ func (sc *SymlinkComponent) Data() string {
 }
 
 func (sc *SymlinkComponent) Len() int {
-	if sc.flags&SymlinkComponentFlagCurrent != 0 {
-		return 2
-	} else if sc.flags&SymlinkComponentFlagParent != 0 {
-		return 2
-	} else if sc.flags&SymlinkComponentFlagRoot != 0 {
-		return 2
-	}
-
 	return 2 + len(sc.data)
 }
 
-- 
2.43.0


From 32aed76babd6c58a22ad140683e00d0c94146415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:25 +0000
Subject: [PATCH 59/61] fix: refuse a symlink component longer than its entry
 can hold

---
 pkg/iso9660/rrip/sl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index faef2b9..2b37fd5 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -122,6 +122,9 @@ type Symlink struct {
 }
 
 func NewSymlinkPart(flags SymlinkComponentFlag, data string, cont bool) (susp.SystemUseEntry, error) {
+	if len(data) > 248 {
+		return nil, errors.New("symlink component too long")
+	}
 	return &Symlink{
 		comp: SymlinkComponent{
 			flags: flags,
-- 
2.43.0


From 7a2e6af3e2fc7855361aa0fa7462ab74e732b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:19 +0000
Subject: [PATCH 60/61] fix: refuse files whose URL is not valid UTF-8

The index is built from the characters of the URLs. Two URLs that differ
only in invalid bytes shared one entry, so one file got the other's data.
---
 pkg/vdisc/builder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index ef30410..8847a75 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	stdurl "net/url"
 	"path"
+	"unicode/utf8"
 
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
@@ -88,6 +89,12 @@ func (b *builder) AddFile(path string, url string, size int64) error {
 		return err
 	}
 
+	// the index is built from the URL's characters
+	if !utf8.ValidString(r.URL()) {
+		r.Close()
+		return fmt.Errorf("URL is not valid UTF-8: %q", r.URL())
+	}
+
 	err = b.volume.AddFile(path, r)
 	if err != nil {
 		r.Close()
-- 
2.43.0


From 5d817a0badc89241714ef95ae6f3fd937a5963fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:38:37 +0000
Subject: [PATCH 61/61] fix: count bytes of concurrent reads atomically

Parts of an upload are read concurrently through the counting reader, and
the plain additions could lose counts.
---
 pkg/countio/readseeker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/countio/readseeker.go b/pkg/countio/readseeker.go
index 92bc46e..41ac1d5 100644
--- a/pkg/countio/readseeker.go
+++ b/pkg/countio/readseeker.go
@@ -45,7 +45,7 @@ func NewReaderAtSeekerWithAtomicCounter(r ReaderAtSeeker, counter *int64) *Count
 
 func (r *CountingReaderAtSeeker) Read(p []byte) (n int, err error) {
 	n, err = r.r.Read(p)
-	r.n += int64(n)
+	atomic.AddInt64(&r.n, int64(n))
 	if r.pn != nil {
 		atomic.AddInt64(r.pn, int64(n))
 	}
@@ -58,7 +58,7 @@ func (r *CountingReaderAtSeeker) Seek(offset int64, whence int) (int64, error) {
 
 func (r *CountingReaderAtSeeker) ReadAt(p []byte, off int64) (n int, err error) {
 	n, err = r.r.ReadAt(p, off)
-	r.n += int64(n)
+	atomic.AddInt64(&r.n, int64(n))
 	if r.pn != nil {
 		atomic.AddInt64(r.pn, int64(n))
 	}
@@ -66,5 +66,5 @@ func (r *CountingReaderAtSeeker) ReadAt(p []byte, off int64) (n int, err error)
 }
 
 func (r *CountingReaderAtSeeker) BytesRead() int64 {
-	return r.n
+	return atomic.LoadInt64(&r.n)
 }
-- 
2.43.0

