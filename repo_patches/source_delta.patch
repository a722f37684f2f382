From 711a99ae2f58608e8c1d397fd5ef342c93d646d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 01/37] fix: free the drive when a call fails after acquiring
 it

A rejected or failed archive, update, delete or move kept the drive's lock,
so every later call blocked forever. The same happened when the drive could
not be opened or closed. Readers are no longer shared between calls, since
the lock was then released twice.
---
 pkg/fs/filesystem.go      |  8 +++---
 pkg/operations/archive.go |  9 +++++++
 pkg/operations/delete.go  |  9 +++++++
 pkg/operations/move.go    |  9 +++++++
 pkg/operations/update.go  |  9 +++++++
 pkg/tape/manager.go       | 56 +++++++++++----------------------------
 6 files changed, 56 insertions(+), 44 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 62e2382..7f1aa8e 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -214,10 +214,6 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
 	if err == config.ErrNoRootDirectory {
 		mkdirRoot := func() (string, error) {
-			if err := f.readOps.GetBackend().CloseReader(); err != nil {
-				return "", err
-			}
-
 			if f.readOnly {
 				return "", os.ErrPermission
 			}
@@ -257,6 +253,10 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 
 			f.onHeader,
 		); err != nil {
+			if err := f.readOps.GetBackend().CloseReader(); err != nil {
+				return "", err
+			}
+
 			return mkdirRoot()
 		}
 
diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 5ba63ee..ce2ac68 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -48,6 +48,14 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
+	writing := true
+	defer func() {
+		// Free the drive if we return before having closed the writer
+		if writing {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -261,6 +269,7 @@ func (o *Operations) archive(
 		index = 0 // If we are starting fresh, index from start
 	}
 
+	writing = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index e45f531..e463934 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -26,6 +26,14 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	writing := true
+	defer func() {
+		// Free the drive if we return before having closed the writer
+		if writing {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -107,6 +115,7 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	writing = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 3cace4f..b5675b0 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -33,6 +33,14 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	writing := true
+	defer func() {
+		// Free the drive if we return before having closed the writer
+		if writing {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -126,6 +134,7 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	writing = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 629cd8e..f9bd0d7 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -33,6 +33,14 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	writing := true
+	defer func() {
+		// Free the drive if we return before having closed the writer
+		if writing {
+			_ = o.backend.CloseWriter()
+		}
+	}()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -279,6 +287,7 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	writing = false
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index eb60314..0948858 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -1,8 +1,6 @@
 package tape
 
 import (
-	"io"
-	"os"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -16,10 +14,6 @@ type TapeManager struct {
 
 	physicalLock sync.Mutex
 
-	readerLock      sync.Mutex
-	reader          *os.File
-	readerIsRegular bool
-
 	closer func() error
 
 	overwrote bool
@@ -55,6 +49,8 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 		overwrite,
 	)
 	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveWriterConfig{}, err
 	}
 
@@ -67,53 +63,33 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 }
 
 func (m *TapeManager) GetReader() (config.DriveReaderConfig, error) {
-	if err := m.openOrReuseReader(); err != nil {
+	// A reader which is still in use must not be shared, so wait until it has been closed
+	m.physicalLock.Lock()
+
+	reader, readerIsRegular, err := OpenTapeReadOnly(m.drive)
+	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveReaderConfig{}, err
 	}
 
+	m.closer = reader.Close
+
 	return config.DriveReaderConfig{
-		Drive:          m.reader,
-		DriveIsRegular: m.readerIsRegular,
+		Drive:          reader,
+		DriveIsRegular: readerIsRegular,
 	}, nil
 }
 
 func (m *TapeManager) Close() error {
+	// The drive is free again even if closing it fails
+	defer m.physicalLock.Unlock()
+
 	if m.closer != nil {
 		if err := m.closer(); err != nil {
 			return err
 		}
 	}
 
-	m.physicalLock.Unlock()
-
-	return nil
-}
-
-func (m *TapeManager) openOrReuseReader() error {
-	m.readerLock.Lock()
-	defer m.readerLock.Unlock()
-
-	reopen := false
-	if m.reader == nil {
-		reopen = true
-	} else if _, err := m.reader.Seek(0, io.SeekCurrent); err != nil {
-		// File is closed
-		reopen = true
-	}
-
-	if reopen {
-		m.physicalLock.Lock()
-
-		r, rr, err := OpenTapeReadOnly(m.drive)
-		if err != nil {
-			return err
-		}
-
-		m.reader = r
-		m.readerIsRegular = rr
-
-		m.closer = r.Close
-	}
-
 	return nil
 }
-- 
2.43.0


From d3538ebacb3ba715579635aac44989d7934b8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 02/37] fix: moving onto a previously used name replaces its
 index entry

Moving a header onto a name which had been deleted or moved onto before
failed with a UNIQUE constraint error, both in the running instance and when
rebuilding the index.
---
 pkg/persisters/metadata.go | 53 ++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index ac26102..e1f2c2b 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -144,49 +144,46 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	newName = p.getSanitizedPath(ctx, newName)
 	oldName = p.getSanitizedPath(ctx, oldName)
 
+	// The moved header replaces a header (or the tombstone of one) which used the new name before
+	if newName != oldName {
+		if _, err := queries.Raw(
+			fmt.Sprintf(
+				`delete from %v where %v = ? and %v in (select %v from %v where %v = ? and %v != 1);`,
+				models.TableNames.Headers,
+				models.HeaderColumns.Name,
+				models.HeaderColumns.Linkname,
+				models.HeaderColumns.Linkname,
+				models.TableNames.Headers,
+				models.HeaderColumns.Name,
+				models.HeaderColumns.Deleted,
+			),
+			newName,
+			oldName,
+		).ExecContext(ctx, p.sqlite.DB); err != nil {
+			return err
+		}
+	}
+
 	// We can't do this with `dbhdr.Update` because we are renaming the primary key
-	n, err := queries.Raw(
+	// Tombstones stay at the name which has been deleted
+	if _, err := queries.Raw(
 		fmt.Sprintf(
-			`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
+			`update %v set %v = ?, %v = ?, %v = ? where %v = ? and %v != 1;`,
 			models.TableNames.Headers,
 			models.HeaderColumns.Name,
 			models.HeaderColumns.Lastknownrecord,
 			models.HeaderColumns.Lastknownblock,
 			models.HeaderColumns.Name,
+			models.HeaderColumns.Deleted,
 		),
 		newName,
 		lastknownrecord,
 		lastknownblock,
 		oldName,
-	).ExecContext(ctx, p.sqlite.DB)
-	if err != nil {
+	).ExecContext(ctx, p.sqlite.DB); err != nil {
 		return err
 	}
 
-	written, err := n.RowsAffected()
-	if err != nil {
-		return err
-	}
-
-	if written < 1 {
-		if _, err := queries.Raw(
-			fmt.Sprintf(
-				`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
-				models.TableNames.Headers,
-				models.HeaderColumns.Name,
-				models.HeaderColumns.Lastknownrecord,
-				models.HeaderColumns.Lastknownblock,
-				models.HeaderColumns.Name,
-			),
-			newName,
-			lastknownrecord,
-			lastknownblock,
-			oldName,
-		).ExecContext(ctx, p.sqlite.DB); err != nil {
-			return err
-		}
-	}
-
 	return nil
 }
 
-- 
2.43.0


From cdf9ceb9ad52e7a73218e9610ac0c9e2f28fdaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 03/37] fix: look up children by exact prefix instead of by
 pattern

---
 pkg/persisters/metadata.go | 173 ++++++++-----------------------------
 1 file changed, 37 insertions(+), 136 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index e1f2c2b..0732387 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -23,10 +23,6 @@ import (
 	"github.com/volatiletech/sqlboiler/v4/queries/qm"
 )
 
-type depth struct {
-	Depth int64 `boil:"depth" json:"depth" toml:"depth" yaml:"depth"`
-}
-
 type MetadataPersister struct {
 	sqlite *ipersisters.SQLite
 
@@ -233,9 +229,10 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 
 func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
+	prefix := getChildPrefix(name)
 
 	headers, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" like ?", strings.TrimSuffix(name, "/")+"/%"), // Prevent double trailing slashes
+		qm.Where("substr("+models.HeaderColumns.Name+", 1, length(?)) = ?", prefix, prefix), // Not `like`; names can contain wildcards and are case-sensitive
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
@@ -255,143 +252,41 @@ func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string)
 
 func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name string, limit int) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
-	prefix := strings.TrimSuffix(name, "/") + "/"
-	rootDepth := 0
+	prefix := getChildPrefix(name)
 
-	// We want <=, not <
-	if limit > 0 {
-		limit++
+	getHeaders := func(column string) (models.HeaderSlice, error) {
+		return models.Headers(
+			qm.Where("substr("+column+", 1, length(?)) = ?", prefix, prefix),
+			qm.Where("instr(rtrim(substr("+column+", length(?) + 1), '/'), '/') = 0", prefix), // Exclude the children's children
+			qm.Where(models.HeaderColumns.Deleted+" != 1"),
+			qm.OrderBy(column),
+		).All(ctx, p.sqlite.DB)
 	}
 
-	// Root node
-	if pathext.IsRoot(name, false) {
-		prefix = ""
-		depth := depth{}
-
-		if err := queries.Raw(
-			fmt.Sprintf(
-				`select min(length(%v) - length(replace(%v, "/", ""))) as depth from %v where %v != 1`,
-				models.HeaderColumns.Name,
-				models.HeaderColumns.Name,
-				models.TableNames.Headers,
-				models.HeaderColumns.Deleted,
-			),
-		).Bind(ctx, p.sqlite.DB, &depth); err != nil {
-			if err == sql.ErrNoRows {
-				return []*config.Header{}, nil
-			}
-
-			return nil, err
-		}
+	headers := []*config.Header{}
 
-		rootDepth = int(depth.Depth)
+	nameHeaders, err := getHeaders(models.HeaderColumns.Name)
+	if err != nil {
+		return nil, err
 	}
 
-	getHeaders := func(prefix string, useLinkname bool) ([]*config.Header, error) {
-		pk := models.HeaderColumns.Name
-		exclude := fmt.Sprintf(`%v = ""`, models.HeaderColumns.Linkname)
-		if useLinkname {
-			pk = models.HeaderColumns.Linkname
-			exclude = "1" // No need to exclude anything
-		}
-		headers := []*config.Header{}
-
-		query := fmt.Sprintf(
-			`select %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v,
-    length(replace(%v, ?, '')) - length(replace(replace(%v, ?, ''), '/', '')) as depth
-from %v
-where %v like ?
-    and (
-        depth = ?
-        or (
-            %v like '%%/'
-            and depth = ?
-        )
-    )
-	and %v != 1
-	and %v
-    and not %v in ('', '.', '/', './')`,
-			models.HeaderColumns.Record,
-			models.HeaderColumns.Lastknownrecord,
-			models.HeaderColumns.Block,
-			models.HeaderColumns.Lastknownblock,
-			models.HeaderColumns.Deleted,
-			models.HeaderColumns.Typeflag,
-			pk,
-			exclude,
-			models.HeaderColumns.Size,
-			models.HeaderColumns.Mode,
-			models.HeaderColumns.UID,
-			models.HeaderColumns.Gid,
-			models.HeaderColumns.Uname,
-			models.HeaderColumns.Gname,
-			models.HeaderColumns.Modtime,
-			models.HeaderColumns.Accesstime,
-			models.HeaderColumns.Changetime,
-			models.HeaderColumns.Devmajor,
-			models.HeaderColumns.Devminor,
-			models.HeaderColumns.Paxrecords,
-			models.HeaderColumns.Format,
-			pk,
-			pk,
-			models.TableNames.Headers,
-			pk,
-			pk,
-			models.HeaderColumns.Deleted,
-			exclude,
-			pk,
-		)
-
-		if limit > 0 {
-			if err := queries.Raw(
-				query+`limit ?`,
-				prefix,
-				prefix,
-				prefix+"%",
-				rootDepth,
-				rootDepth+1,
-				limit+1, // +1 to accomodate the parent directory if it exists
-			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-				if err == sql.ErrNoRows {
-					return headers, nil
-				}
-
-				return nil, err
-			}
-		} else if limit <= 0 {
-			if err := queries.Raw(
-				query,
-				prefix,
-				prefix,
-				prefix+"%",
-				rootDepth,
-				rootDepth+1,
-			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-				if err == sql.ErrNoRows {
-					return headers, nil
-				}
-
-				return nil, err
-			}
+	for _, hdr := range nameHeaders {
+		if hdr.Linkname == "" {
+			headers = append(headers, converters.DBHeaderToConfigHeader(hdr))
 		}
-
-		return headers, nil
 	}
 
-	headers := []*config.Header{}
-
-	nameHeaders, err := getHeaders(prefix, false)
+	linknameHeaders, err := getHeaders(models.HeaderColumns.Linkname)
 	if err != nil {
 		return nil, err
 	}
 
-	rawLinknameHeaders, err := getHeaders(prefix, true)
-	if err != nil {
-		return nil, err
-	}
+	for _, hdr := range linknameHeaders {
+		if hdr.Linkname == "" {
+			continue
+		}
 
-	linknameHeaders := []*config.Header{}
-	for _, link := range rawLinknameHeaders {
+		link := converters.DBHeaderToConfigHeader(hdr)
 		name := link.Name
 		linkname := link.Linkname
 
@@ -401,7 +296,7 @@ where %v like ?
 				link.Name = linkname
 				link.Linkname = name
 
-				linknameHeaders = append(linknameHeaders, link)
+				headers = append(headers, link)
 
 				continue
 			} else {
@@ -412,25 +307,22 @@ where %v like ?
 		target.Name = linkname
 		target.Linkname = name
 
-		linknameHeaders = append(linknameHeaders, target)
+		headers = append(headers, target)
 	}
 
-	headers = append(headers, nameHeaders...)
-	headers = append(headers, linknameHeaders...)
-
 	outhdrs := []*config.Header{}
 	for _, hdr := range headers {
 		prefix := strings.TrimSuffix(hdr.Name, "/")
-		if name != prefix && name != prefix+"/" {
+		if !pathext.IsRoot(hdr.Name, false) && name != prefix && name != prefix+"/" {
 			outhdrs = append(outhdrs, hdr)
 		}
 	}
 
-	if limit <= 0 || len(outhdrs) < limit || len(outhdrs) == 0 {
+	if limit <= 0 || len(outhdrs) <= limit {
 		return outhdrs, nil
 	}
 
-	return outhdrs[:limit-1], nil
+	return outhdrs[:limit], nil
 }
 
 func (p *MetadataPersister) DeleteHeader(ctx context.Context, name string, lastknownrecord, lastknownblock int64) (*config.Header, error) {
@@ -545,3 +437,12 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 
 	return path.Join(prefix, strings.TrimPrefix(name, "/"))
 }
+
+// getChildPrefix returns the prefix which the names of all headers below a header have in common
+func getChildPrefix(name string) string {
+	if name == "" || name == "." {
+		return ""
+	}
+
+	return strings.TrimSuffix(name, "/") + "/" // Prevent double trailing slashes
+}
-- 
2.43.0


From feac02f5f80b8f5fd36b3c41a605b62fd0498586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 04/37] fix: entries can only be created beneath an existing
 directory

Check that the parent is a directory instead of only that it exists, and
create all missing parents in MkdirAll by splitting on the path separator
instead of on the list separator.
---
 pkg/fs/filesystem.go | 79 +++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 42 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 7f1aa8e..716b629 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -96,21 +97,6 @@ func (f *STFS) Create(name string) (afero.File, error) {
 
 	name = cleanName(name)
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(name),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return nil, os.ErrNotExist
-		}
-
-		return nil, err
-	}
-
 	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
 }
 
@@ -273,6 +259,34 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	return existingRoot, nil
 }
 
+func (f *STFS) checkParentWithoutLocking(name string) error {
+	f.log.Trace("FileSystem.checkParentWithoutLocking", map[string]interface{}{
+		"name": name,
+	})
+
+	parent, err := inventory.Stat(
+		f.metadata,
+
+		filepath.Dir(name),
+		false,
+
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
+		}
+
+		return err
+	}
+
+	if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
+	}
+
+	return nil
+}
+
 func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.log.Debug("FileSystem.Mkdir", map[string]interface{}{
 		"name": name,
@@ -288,18 +302,7 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(name),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(name); err != nil {
 		return err
 	}
 
@@ -343,12 +346,15 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	parts := filepath.SplitList(path)
+	parts := strings.Split(filepath.ToSlash(path), "/")
 	currentPath := ""
 
-	for _, part := range parts {
-		if currentPath == "" {
+	for i, part := range parts {
+		if i == 0 {
 			currentPath = part
+			if part == "" {
+				currentPath = "/" // Path is absolute
+			}
 		} else {
 			currentPath = filepath.Join(currentPath, part)
 		}
@@ -1155,18 +1161,7 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(newname); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 3ea959430188b28dfd89cfd3de2b30a77d133136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 05/37] fix: exclusive creation creates missing files and
 refuses existing ones

---
 pkg/fs/filesystem.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 716b629..7f6b96c 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -451,6 +451,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	created := false
 	hdr, err := inventory.Stat(
 		f.metadata,
 
@@ -471,19 +472,8 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 			)
 
 			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
-					if _, err := inventory.Stat(
-						f.metadata,
-
-						filepath.Dir(name),
-						false,
-
-						f.onHeader,
-					); err != nil {
-						if err == sql.ErrNoRows {
-							return os.ErrNotExist
-						}
-
+				if !f.readOnly && flag&os.O_CREATE != 0 {
+					if err := f.checkParentWithoutLocking(name); err != nil {
 						return err
 					}
 
@@ -503,6 +493,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 					if err := f.mknodeWithoutLocking(false, name, perm, false, "", false); err != nil {
 						return err
 					}
+					created = true
 
 					hdr, err = inventory.Stat(
 						f.metadata,
@@ -574,6 +565,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	// Prevent opening an existing header if it has to be created exclusively
+	if !created && !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+		return nil, os.ErrExist
+	}
+
 	// Prevent opening a directory as writable
 	if hdr.Typeflag == tar.TypeDir && (flags.Write || flags.Append || flags.Truncate) {
 		return nil, config.ErrIsDirectory
-- 
2.43.0


From 19367ada29bc5d77045ebcd38027d20321bea5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 06/37] fix: renaming replaces the target in one step and never
 touches its own subtree

Replacing an existing entry was a removal followed by a move of the same
name, moving an entry onto itself removed it, and a directory could be
moved into its own subtree or over a non-empty directory.
---
 pkg/fs/filesystem.go   | 45 +++++++++++++++++++++++++++++-------------
 pkg/operations/move.go |  8 +++++++-
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 7f6b96c..db64ef4 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -720,7 +720,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname {
+	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname || pathext.IsRoot(oldname, false) {
 		return os.ErrInvalid
 	}
 
@@ -754,19 +754,21 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	if _, err := inventory.Stat(
-		f.metadata,
+	if err := f.checkParentWithoutLocking(newname); err != nil {
+		return err
+	}
 
-		filepath.Dir(newname),
-		false,
+	oldpath := path.Join("/", filepath.ToSlash(oldname))
+	newpath := path.Join("/", filepath.ToSlash(newname))
 
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
+	// Ignore no-op move operation
+	if oldpath == newpath {
+		return nil
+	}
 
-		return err
+	// Prevent moving a directory into itself
+	if strings.HasPrefix(newpath, oldpath+"/") {
+		return os.ErrInvalid
 	}
 
 	target, err := inventory.Stat(
@@ -782,13 +784,28 @@ func (f *STFS) Rename(oldname, newname string) error {
 			return os.ErrExist
 		}
 
-		if err := f.removeWithoutLocking(newname); err != nil {
-			return err
-		}
+		if target.Typeflag == tar.TypeDir {
+			hdrs, err := inventory.List(
+				f.metadata,
 
+				newname,
+				-1,
+
+				f.onHeader,
+			)
+			if err != nil {
+				return err
+			}
+
+			if len(hdrs) > 0 {
+				return config.ErrDirectoryNotEmpty
+			}
+		}
+	} else if err != sql.ErrNoRows {
 		return err
 	}
 
+	// Moving replaces the target
 	return f.writeOps.Move(oldname, newname)
 }
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index b5675b0..1df9a3b 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -4,6 +4,7 @@ import (
 	"archive/tar"
 	"context"
 	"database/sql"
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
@@ -76,6 +77,11 @@ func (o *Operations) Move(from string, to string) error {
 		return nil
 	}
 
+	// Prevent moving a directory into itself
+	if strings.HasPrefix(path.Join("/", to), path.Join("/", dbhdr.Name)+"/") {
+		return os.ErrInvalid
+	}
+
 	// If the header refers to a directory, get it's children
 	if dbhdr.Typeflag == tar.TypeDir {
 		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), from)
@@ -95,7 +101,7 @@ func (o *Operations) Move(from string, to string) error {
 		}
 
 		hdr.Size = 0 // Don't try to seek after the record
-		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
+		hdr.Name = path.Join(to, strings.TrimPrefix(dbhdr.Name, strings.TrimSuffix(headersToMove[0].Name, "/")))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
-- 
2.43.0


From 3329a00d007cbc269552194b0d0bf8d48c4d022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 07/37] fix: an open file behaves like a byte array with a
 cursor

Keep one lazily restored buffer and one position per open file instead of
separate read and write modes with diverging positions; write at the
requested position instead of cutting off what follows it, pad with zeros
when growing, report counts, offsets and the end of the file like
io.Reader, io.ReaderAt and io.Seeker require, truncate when opened with
O_TRUNC and only append a record on close if the content was changed.
---
 internal/ioext/write.go |  10 +
 pkg/cache/write.go      |  31 +++
 pkg/fs/file.go          | 591 ++++++++++++++++++----------------------
 pkg/fs/filesystem.go    |  14 +-
 4 files changed, 312 insertions(+), 334 deletions(-)

diff --git a/internal/ioext/write.go b/internal/ioext/write.go
index 5d2d4ba..ce8c35e 100644
--- a/internal/ioext/write.go
+++ b/internal/ioext/write.go
@@ -11,3 +11,13 @@ func (NopCloser) Close() error { return nil }
 func AddCloseNopToWriter(w io.Writer) NopCloser {
 	return NopCloser{w}
 }
+
+type NopReadSeekCloser struct {
+	io.ReadSeeker
+}
+
+func (NopReadSeekCloser) Close() error { return nil }
+
+func AddCloseNopToReadSeeker(r io.ReadSeeker) NopReadSeekCloser {
+	return NopReadSeekCloser{r}
+}
diff --git a/pkg/cache/write.go b/pkg/cache/write.go
index b67c230..788839c 100644
--- a/pkg/cache/write.go
+++ b/pkg/cache/write.go
@@ -37,11 +37,42 @@ func (f filebufferWithSize) Sync() error {
 }
 
 func (f filebufferWithSize) Truncate(size int64) error {
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
+	// Pad with zeros if the file grows
+	if oldSize := int64(f.Buff.Len()); size > oldSize {
+		_, err := f.Buff.Write(make([]byte, size-oldSize))
+
+		return err
+	}
+
 	f.Buff.Truncate(int(size))
 
 	return nil
 }
 
+func (f filebufferWithSize) Write(p []byte) (n int, err error) {
+	if size := int64(f.Buff.Len()); f.Index > size {
+		if err := f.Truncate(f.Index); err != nil {
+			return 0, err
+		}
+	}
+
+	// Overwrite in place, the underlying buffer would drop everything after the index instead
+	n = copy(f.Buff.Bytes()[f.Index:], p)
+	f.Index += int64(n)
+
+	if n < len(p) {
+		m, err := f.Buffer.Write(p[n:])
+
+		return n + m, err
+	}
+
+	return n, nil
+}
+
 func NewCacheWrite(
 	root string,
 	cacheType string,
diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 6e6b400..eedffff 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -1,7 +1,6 @@
 package fs
 
 import (
-	"bytes"
 	"database/sql"
 	"io"
 	"io/fs"
@@ -48,8 +47,8 @@ type File struct {
 
 	ioLock *sync.Mutex
 
-	readOpReader *ioext.CounterReadCloser
-	readOpWriter io.WriteCloser
+	pos   int64
+	dirty bool
 
 	writeBuf      cache.WriteCache
 	cleanWriteBuf func() error
@@ -109,68 +108,65 @@ func (f *File) syncWithoutLocking() error {
 		return config.ErrIsDirectory
 	}
 
-	if f.writeBuf != nil {
-		done := false
-		if _, err := f.writeOps.Update(
-			func() (config.FileConfig, error) {
-				// Exit after the first write
-				if done {
-					return config.FileConfig{}, io.EOF
-				}
-				done = true
-
-				size, err := f.writeBuf.Size()
-				if err != nil {
-					return config.FileConfig{}, err
-				}
-
-				// Some OSes like i.e. Windows don't support numeric GIDs and UIDs, so use 0 instead
-				gid := 0
-				uid := 0
-				modTime := f.info.ModTime()
-				accessTime := f.info.ModTime()
-				changeTime := f.info.ModTime()
-				sys, ok := f.info.Sys().(*Stat)
-				if ok {
-					gid = int(sys.Gid)
-					uid = int(sys.Uid)
-					accessTime = time.Unix(0, sys.Atim.Nano())
-					changeTime = time.Unix(0, sys.Ctim.Nano())
-				}
-
-				f.info = NewFileInfo(
-					f.info.Name(),
-					size,
-					f.info.Mode(),
-					modTime,
-					accessTime,
-					changeTime,
-					gid,
-					uid,
-					f.info.IsDir(),
-					f.log,
-				)
-
-				return config.FileConfig{
-					GetFile: func() (io.ReadSeekCloser, error) {
-						if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-							return nil, err
-						}
-
-						return f.writeBuf, nil
-					},
-					Info: f.info,
-					Path: f.path,
-					Link: f.link,
-				}, nil
-			},
-			f.compressionLevel,
-			true,
-			true,
-		); err != nil {
-			return err
+	if f.writeBuf == nil || !f.dirty {
+		return nil
+	}
+
+	// Use the current attributes, they might have been changed since the file was opened
+	hdr, err := inventory.Stat(
+		f.metadata,
+
+		f.path,
+		false,
+
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
 		}
+
+		return err
+	}
+
+	hdr.Size, err = f.writeBuf.Size()
+	if err != nil {
+		return err
 	}
+	hdr.ModTime = time.Now()
+
+	done := false
+	if _, err := f.writeOps.Update(
+		func() (config.FileConfig, error) {
+			// Exit after the first write
+			if done {
+				return config.FileConfig{}, io.EOF
+			}
+			done = true
+
+			return config.FileConfig{
+				GetFile: func() (io.ReadSeekCloser, error) {
+					if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
+						return nil, err
+					}
+
+					// Don't close the file here, we want to re-use it!
+					return ioext.AddCloseNopToReadSeeker(f.writeBuf), nil
+				},
+				Info: hdr.FileInfo(),
+				Path: f.path,
+				Link: f.link,
+			}, nil
+		},
+		f.compressionLevel,
+		true,
+		true,
+	); err != nil {
+		return err
+	}
+
+	f.info = NewFileInfoFromTarHeader(hdr, f.log)
+	f.dirty = false
 
 	return nil
 }
@@ -180,112 +176,112 @@ func (f *File) closeWithoutLocking() error {
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil {
-		if err := f.readOpReader.Close(); err != nil {
-			return err
-		}
+	if f.writeBuf == nil {
+		return nil
 	}
 
-	if f.readOpWriter != nil {
-		if err := f.readOpWriter.Close(); err != nil {
-			return err
-		}
-	}
+	// Free the buffer even if syncing it fails
+	err := f.syncWithoutLocking()
 
-	if f.writeBuf != nil {
-		// No need to close write buffer, the `update` operation closes it itself
-		if err := f.syncWithoutLocking(); err != nil {
-			return err
-		}
+	if e := f.writeBuf.Close(); err == nil {
+		err = e
+	}
 
-		if err := f.cleanWriteBuf(); err != nil {
-			return err
-		}
+	if e := f.cleanWriteBuf(); err == nil {
+		err = e
 	}
 
-	f.readOpReader = nil
-	f.readOpWriter = nil
 	f.writeBuf = nil
+	f.cleanWriteBuf = nil
+	f.dirty = false
+	f.pos = 0
 
-	return nil
+	return err
 }
 
-func (f *File) enterWriteMode() error {
-	f.log.Trace("File.enterWriteMode", map[string]interface{}{
+// openBuffer opens the buffer if this has not been done before and optionally restores the file's content into it
+func (f *File) openBuffer(restore bool) error {
+	f.log.Trace("File.openBuffer", map[string]interface{}{
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil || f.readOpWriter != nil {
-		if err := f.closeWithoutLocking(); err != nil {
-			return err
-		}
+	if f.writeBuf != nil {
+		return nil
 	}
 
-	if f.writeBuf == nil {
-		exists := false
-		existingFile, err := inventory.Stat(
-			f.metadata,
+	existingFile, err := inventory.Stat(
+		f.metadata,
 
-			f.path,
-			false,
+		f.path,
+		false,
 
-			f.onHeader,
-		)
-		if err == nil {
-			if existingFile.Size != 0 {
-				exists = true
-			}
-		} else {
-			if err != sql.ErrNoRows {
-				return err
-			}
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
 		}
 
-		// Create new buffer
-		writeBuf, cleanWriteBuf, err := f.getFileBuffer()
-		if err != nil {
-			return err
-		}
+		return err
+	}
 
-		f.writeBuf = writeBuf
-		f.cleanWriteBuf = cleanWriteBuf
+	// Create new buffer
+	getFileBuffer := f.getFileBuffer
+	if getFileBuffer == nil {
+		// Read-only filesystems don't have to provide a buffer
+		getFileBuffer = func() (cache.WriteCache, func() error, error) {
+			return cache.NewCacheWrite(os.TempDir(), config.WriteCacheTypeFile)
+		}
+	}
 
-		// Read existing file into buffer
-		if exists {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					// Don't close the file here, we want to re-use it!
-					return ioext.AddCloseNopToWriter(f.writeBuf), nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
+	writeBuf, cleanWriteBuf, err := getFileBuffer()
+	if err != nil {
+		return err
+	}
 
-				f.path,
-				"",
-				true,
-			); err != nil {
-				return err
-			}
-		}
+	// Read existing file into buffer
+	if restore && existingFile.Size != 0 {
+		if err := f.readOps.Restore(
+			func(path string, mode fs.FileMode) (io.WriteCloser, error) {
+				// Don't close the file here, we want to re-use it!
+				return ioext.AddCloseNopToWriter(writeBuf), nil
+			},
+			func(path string, mode fs.FileMode) error {
+				// Not necessary; can't read on a directory
+				return nil
+			},
 
-		if f.flags.Truncate {
-			if err := f.writeBuf.Truncate(0); err != nil {
-				return err
-			}
-		}
+			f.path,
+			"",
+			true,
+		); err != nil {
+			_ = writeBuf.Close()
+			_ = cleanWriteBuf()
 
-		if !f.flags.Append {
-			if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-				return err
-			}
+			return err
 		}
 	}
 
+	f.writeBuf = writeBuf
+	f.cleanWriteBuf = cleanWriteBuf
+
 	return nil
 }
 
+func (f *File) truncateWithoutLocking(size int64) error {
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
+	if err := f.openBuffer(size > 0); err != nil {
+		return err
+	}
+
+	f.dirty = true
+
+	return f.writeBuf.Truncate(size)
+}
+
 func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 	f.log.Trace("File.seekWithoutLocking", map[string]interface{}{
 		"name":   f.name,
@@ -298,82 +294,102 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 		return 0, nil
 	}
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Seek(offset, whence)
-	}
-
 	dst := int64(0)
 	switch whence {
 	case io.SeekStart:
 		dst = offset
 	case io.SeekCurrent:
-		curr := 0
-		if f.readOpReader != nil {
-			curr = f.readOpReader.BytesRead
-		}
-		dst = int64(curr) + offset
+		dst = f.pos + offset
 	case io.SeekEnd:
-		dst = f.info.Size() - offset
+		size, err := f.sizeWithoutLocking()
+		if err != nil {
+			return 0, err
+		}
+
+		dst = size + offset
 	default:
-		return -1, config.ErrNotImplemented
+		return 0, config.ErrNotImplemented
 	}
 
-	if f.readOpReader == nil || f.readOpWriter == nil || dst < int64(f.readOpReader.BytesRead) { // We have to re-open as we can't seek backwards
-		_ = f.closeWithoutLocking() // Ignore errors here as it might not be opened
+	if dst < 0 {
+		return 0, os.ErrInvalid
+	}
 
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
+	f.pos = dst
 
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
+	return dst, nil
+}
 
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
+func (f *File) sizeWithoutLocking() (int64, error) {
+	if f.writeBuf == nil {
+		return f.info.Size(), nil
+	}
 
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
+	return f.writeBuf.Size()
+}
 
-		f.readOpReader = reader
-		f.readOpWriter = writer
+func (f *File) readAtWithoutLocking(p []byte, off int64) (n int, err error) {
+	if err := f.openBuffer(true); err != nil {
+		return 0, err
 	}
 
-	written, err := io.CopyN(io.Discard, f.readOpReader, dst-int64(f.readOpReader.BytesRead))
-	if err == io.EOF {
-		// Noop
-		switch whence {
-		case io.SeekStart:
-			return offset, nil
-		case io.SeekCurrent:
-			return int64(f.readOpReader.BytesRead) + offset, nil
-		case io.SeekEnd:
-			return int64(f.info.Size()) - offset, nil
-		default:
-			return -1, config.ErrNotImplemented
-		}
+	if _, err := f.writeBuf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
+	}
+
+	n, err = io.ReadFull(f.writeBuf, p)
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
+	}
+
+	return n, err
+}
+
+func (f *File) writeAtWithoutLocking(p []byte, off int64) (n int, err error) {
+	if len(p) <= 0 {
+		return 0, nil
 	}
 
+	if err := f.openBuffer(true); err != nil {
+		return 0, err
+	}
+
+	size, err := f.writeBuf.Size()
 	if err != nil {
-		return -1, err
+		return 0, err
+	}
+
+	// Fill the gap when writing after the end of the file
+	if off > size {
+		if err := f.truncateWithoutLocking(off); err != nil {
+			return 0, err
+		}
+	}
+
+	if _, err := f.writeBuf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
 	}
 
-	return written, nil
+	f.dirty = true
+
+	return f.writeBuf.Write(p)
+}
+
+func (f *File) writeWithoutLocking(p []byte) (n int, err error) {
+	if f.flags.Append && len(p) > 0 {
+		if err := f.openBuffer(true); err != nil {
+			return 0, err
+		}
+
+		if f.pos, err = f.writeBuf.Size(); err != nil {
+			return 0, err
+		}
+	}
+
+	n, err = f.writeAtWithoutLocking(p, f.pos)
+	f.pos += int64(n)
+
+	return n, err
 }
 
 // Inventory
@@ -408,24 +424,20 @@ func (f *File) Stat() (os.FileInfo, error) {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if f.writeBuf != nil {
-		size, err := f.writeBuf.Size()
-		if err != nil {
-			return nil, err
-		}
+	// Return a copy, the info must not change after it has been returned
+	info := *f.info
 
-		f.info.size = size
+	size, err := f.sizeWithoutLocking()
+	if err != nil {
+		return nil, err
 	}
+	info.size = size
 
 	if f.link != "" {
-		info := f.info
-
 		info.name = path.Base(f.link)
-
-		return info, nil
 	}
 
-	return f.info, nil
+	return &info, nil
 }
 
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
@@ -466,10 +478,6 @@ func (f *File) Readdirnames(n int) ([]string, error) {
 		"n":    n,
 	})
 
-	if !f.info.IsDir() {
-		return []string{}, config.ErrIsFile
-	}
-
 	dirs, err := f.Readdir(n)
 	if err != nil {
 		return []string{}, err
@@ -490,8 +498,11 @@ func (f *File) Read(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if !f.flags.Read {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	if len(p) <= 0 {
@@ -499,61 +510,18 @@ func (f *File) Read(p []byte) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
-	if f.writeBuf != nil {
-		return f.writeBuf.Read(p)
-	}
+	n, err = f.readAtWithoutLocking(p, f.pos)
+	f.pos += int64(n)
 
-	if f.readOpReader == nil || f.readOpWriter == nil {
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
-	}
-
-	w := &bytes.Buffer{}
-	_, err = io.CopyN(w, f.readOpReader, int64(len(p)))
-	if err == io.EOF {
-		return copy(p, w.Bytes()), io.EOF
-	}
-
-	if err != nil {
-		return -1, err
+	// The end of the file is only reported if there is nothing left to read
+	if n > 0 && err == io.EOF {
+		err = nil
 	}
 
-	return copy(p, w.Bytes()), nil
+	return n, err
 }
 
 func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
@@ -563,8 +531,11 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if !f.flags.Read {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	if len(p) <= 0 {
@@ -572,14 +543,14 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
-	if _, err := f.Seek(off, io.SeekStart); err != nil {
-		return -1, err
+	if off < 0 {
+		return 0, os.ErrInvalid
 	}
 
-	return f.Read(p)
+	return f.readAtWithoutLocking(p, off)
 }
 
 // Read/write operations
@@ -603,27 +574,18 @@ func (f *File) Write(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return -1, os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+	if f.info.IsDir() {
+		return 0, config.ErrIsDirectory
 	}
 
-	n, err = f.writeBuf.Write(p)
-	if err != nil {
-		return -1, err
+	if !f.flags.Write {
+		return 0, os.ErrPermission
 	}
 
-	return n, nil
+	return f.writeWithoutLocking(p)
 }
 
 func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
@@ -633,26 +595,22 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+	if off < 0 {
+		return 0, os.ErrInvalid
 	}
 
-	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
-		return -1, err
-	}
-
-	return f.writeBuf.Write(p)
+	return f.writeAtWithoutLocking(p, off)
 }
 
 func (f *File) WriteString(s string) (ret int, err error) {
@@ -661,22 +619,18 @@ func (f *File) WriteString(s string) (ret int, err error) {
 		"s":    len(s),
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	return f.writeBuf.Write([]byte(s))
+	return f.writeWithoutLocking([]byte(s))
 }
 
 func (f *File) Truncate(size int64) error {
@@ -685,6 +639,9 @@ func (f *File) Truncate(size int64) error {
 		"size": size,
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if f.info.IsDir() {
 		return config.ErrIsDirectory
 	}
@@ -693,37 +650,7 @@ func (f *File) Truncate(size int64) error {
 		return os.ErrPermission
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
-	if err := f.enterWriteMode(); err != nil {
-		return err
-	}
-
-	oldSize, err := f.writeBuf.Size()
-	if err != nil {
-		return err
-	}
-
-	if size > oldSize {
-		if err := f.writeBuf.Truncate(0); err != nil {
-			return err
-		}
-
-		for i := int64(0); i < size; i++ {
-			if _, err := f.writeBuf.Write(make([]byte, 1)); err != nil {
-				return err
-			}
-		}
-
-		return nil
-	}
-
-	if err := f.writeBuf.Truncate(size); err != nil {
-		return err
-	}
-
-	return nil
+	return f.truncateWithoutLocking(size)
 }
 
 // Cleanup operations
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index db64ef4..a941c15 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -575,7 +575,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		return nil, config.ErrIsDirectory
 	}
 
-	return NewFile(
+	file := NewFile(
 		f.readOps,
 		f.writeOps,
 
@@ -594,7 +594,17 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 		f.onHeader,
 		f.log,
-	), nil
+	)
+
+	if flags.Write && flags.Truncate && hdr.Size > 0 {
+		if err := file.truncateWithoutLocking(0); err != nil {
+			_ = file.closeWithoutLocking()
+
+			return nil, err
+		}
+	}
+
+	return file, nil
 }
 
 func (f *STFS) Remove(name string) error {
-- 
2.43.0


From fed846650ec2a2ef4ae7b29b77e41b3d74475e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 08/37] fix: operations on an entry don't repeat the records of
 earlier operations

Headers read back from the index carried the STFS records of the operation
which wrote them, so i.e. changing the mode of a moved entry moved it again.
Keep the size of an entry on metadata updates and only remove suffixes
where they have been added.
---
 internal/converters/header.go | 9 +++++++++
 pkg/recovery/index.go         | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/converters/header.go b/internal/converters/header.go
index 3f72aef..dc4d820 100644
--- a/internal/converters/header.go
+++ b/internal/converters/header.go
@@ -3,8 +3,10 @@ package converters
 import (
 	"archive/tar"
 	"encoding/json"
+	"strings"
 
 	models "github.com/pojntfx/stfs/internal/db/sqlite/models/metadata"
+	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -69,6 +71,13 @@ func DBHeaderToTarHeader(dbhdr *models.Header) (*tar.Header, error) {
 		paxRecords = map[string]string{}
 	}
 
+	// The STFS records describe the operation which wrote the header, not the header itself
+	for key := range paxRecords {
+		if strings.HasPrefix(key, records.STFSPrefix) {
+			delete(paxRecords, key)
+		}
+	}
+
 	hdr := &tar.Header{
 		Typeflag:   byte(dbhdr.Typeflag),
 		Name:       dbhdr.Name,
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index faffb60..b3f6f5b 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -259,7 +259,8 @@ func indexHeader(
 		hdr.Size = int64(size)
 	}
 
-	if hdr.FileInfo().Mode().IsRegular() {
+	// Only headers with content have a suffix
+	if ok && hdr.FileInfo().Mode().IsRegular() {
 		newName, err := suffix.RemoveSuffix(hdr.Name, compressionFormat, encryptionFormat)
 		if err != nil {
 			return err
@@ -327,6 +328,8 @@ func indexHeader(
 				// Metadata-only update; use the old record & block
 				oldHdr, err := metadataPersister.GetHeader(context.Background(), oldName)
 				if err == nil {
+					hdr.Size = oldHdr.Size // The content does not change
+
 					h, err := converters.TarHeaderToDBHeader(oldHdr.Record, record, oldHdr.Block, block, hdr)
 					if err != nil {
 						return err
-- 
2.43.0


From b5a0e755b935baa5a20934e6512e5f18f08348a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 09/37] fix: reject headers whose PGP signature can't be parsed

---
 pkg/signature/verify.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 02adde6..2b6acdd 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -68,7 +68,7 @@ func Verify(
 		}
 
 		sig, ok := pkt.(*packet.Signature)
-		if !ok {
+		if !ok || !sig.Hash.Available() {
 			return nil, nil, config.ErrSignatureInvalid
 		}
 
@@ -157,27 +157,27 @@ func VerifyString(
 	case config.SignatureFormatPGPKey:
 		recipients, ok := recipient.(openpgp.EntityList)
 		if !ok {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		if len(recipients) < 1 {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		decodedSignature, err := base64.StdEncoding.DecodeString(signature)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		reader := packet.NewReader(bytes.NewBuffer(decodedSignature))
 		pkt, err := reader.Next()
 		if err != nil {
-			return nil
+			return err
 		}
 
 		sig, ok := pkt.(*packet.Signature)
-		if !ok {
-			return nil
+		if !ok || !sig.Hash.Available() {
+			return config.ErrSignatureInvalid
 		}
 
 		hash := sig.Hash.New()
-- 
2.43.0


From 88273f00c8f74dcb23789de1905c3cbb09b6e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 10/37] fix: restoring entries without content closes the
 destination

Empty files don't have any compressed, encrypted or signed content which
could be read, and non-regular files never have content.
---
 pkg/recovery/fetch.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 1ae1c15..7d2ecb3 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -93,15 +93,19 @@ func Fetch(
 			return err
 		}
 
-		// Don't decompress non-regular files
-		if !hdr.FileInfo().Mode().IsRegular() {
-			if _, err := io.Copy(dstFile, tr); err != nil {
-				return err
-			}
-
-			return nil
+		// Non-regular and empty files don't have content
+		if !hdr.FileInfo().Mode().IsRegular() || hdr.Size == 0 {
+			return dstFile.Close()
 		}
 
+		restored := false
+		defer func() {
+			// Free the destination if we return before having restored the content
+			if !restored {
+				_ = dstFile.Close()
+			}
+		}()
+
 		decryptor, err := encryption.Decrypt(tr, pipes.Encryption, crypto.Identity)
 		if err != nil {
 			return err
@@ -140,6 +144,7 @@ func Fetch(
 			return err
 		}
 
+		restored = true
 		if err := dstFile.Close(); err != nil {
 			return err
 		}
-- 
2.43.0


From 9cddc59214ae7dc3f6ba0c3a5ba81e8b35ab2ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 11/37] fix: opening a file of a read-only filesystem can
 neither create nor truncate it

---
 pkg/fs/filesystem.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index a941c15..b3a4cc4 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -425,6 +425,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 	flags := &FileFlags{}
 	if f.readOnly {
+		// Prevent truncating a file
+		if flag&os.O_TRUNC != 0 {
+			return nil, os.ErrPermission
+		}
+
 		if (flag&O_ACCMODE) == os.O_RDONLY || (flag&O_ACCMODE) == os.O_RDWR {
 			flags.Read = true
 		}
@@ -472,7 +477,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 			)
 
 			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 {
+				if f.readOnly && flag&os.O_CREATE != 0 {
+					return os.ErrPermission
+				}
+
+				if flag&os.O_CREATE != 0 {
 					if err := f.checkParentWithoutLocking(name); err != nil {
 						return err
 					}
@@ -566,7 +575,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 	}
 
 	// Prevent opening an existing header if it has to be created exclusively
-	if !created && !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+	if !created && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
 		return nil, os.ErrExist
 	}
 
-- 
2.43.0


From e657485f546246a8a743f6743f20b9cb7442921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 12/37] fix: index every complete record of a tape and nothing
 else

Index a record only once its content has been skipped completely, so that a
record which has been cut off doesn't replace the entry's content; report
a tape which ends within a record and drive errors instead of ignoring or
retrying them forever, and skip the zeros between archives block by block
instead of blindly skipping two blocks, which might contain a header.
---
 pkg/recovery/index.go | 147 +++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 75 deletions(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index b3f6f5b..a7c5705 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -3,6 +3,7 @@ package recovery
 import (
 	"archive/tar"
 	"bufio"
+	"bytes"
 	"context"
 	"database/sql"
 	"io"
@@ -49,70 +50,65 @@ func Index(
 	}
 
 	if reader.DriveIsRegular {
-		// Seek to record and block
-		if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*record)+block*config.MagneticTapeBlockSize), 0); err != nil {
+		position := int64((pipes.RecordSize * config.MagneticTapeBlockSize * record) + block*config.MagneticTapeBlockSize)
+		size, err := reader.Drive.Seek(0, io.SeekEnd)
+		if err != nil {
 			return err
 		}
 
-		tr := tar.NewReader(reader.Drive)
-
-		record := int64(record)
-		block := int64(block)
 		i := 0
 
 		for {
-			hdr, err := tr.Next()
+			// Skip the trailers and padding between archives; this makes it possible to append to a tar file created by i.e. GNU tar
+			position, err = seekToNextHeader(reader.Drive, position)
 			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return err
-					}
+				if err == io.EOF {
+					// EOF
+					break
+				}
 
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
+				return err
+			}
 
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
+			totalBlocks := position / config.MagneticTapeBlockSize
+			record := totalBlocks / int64(pipes.RecordSize)
+			block := totalBlocks - (record * int64(pipes.RecordSize))
 
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return err
-					}
+			tr := tar.NewReader(reader.Drive)
+			hdr, err := tr.Next()
+			if err != nil {
+				if err == tar.ErrHeader {
+					// Not a header, try again with the next block
+					position += config.MagneticTapeBlockSize
 
-					tr = tar.NewReader(reader.Drive)
+					continue
+				}
 
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-							break
-						}
+				if err == io.EOF {
+					// The header has been cut off
+					return io.ErrUnexpectedEOF
+				}
 
-						continue
-					}
+				return err
+			}
 
-					break
-				}
+			// Skip the content before indexing the header so that headers with content which has been cut off aren't indexed
+			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				return err
 			}
 
-			if hdr == nil {
-				// Try to skip over the next file mark; this makes it possible to append to a tar file created by i.e. GNU tar
-				if _, err := reader.Drive.Read(make([]byte, config.MagneticTapeBlockSize*2)); err != nil {
-					if err == io.EOF {
-						// EOF
-						break
-					}
+			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
+			if err != nil {
+				return err
+			}
 
-					return err
-				}
+			position = int64(math.Ceil(float64(curr)/float64(config.MagneticTapeBlockSize))) * config.MagneticTapeBlockSize
+			if position > size {
+				return io.ErrUnexpectedEOF
+			}
 
+			// Global headers don't describe an entry
+			if hdr.Typeflag == tar.TypeXGlobalHeader {
 				continue
 			}
 
@@ -130,29 +126,6 @@ func Index(
 				}
 			}
 
-			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return err
-			}
-
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
-				return err
-			}
-
-			currAndSize, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return err
-			}
-
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
-			}
-
 			i++
 		}
 	} else {
@@ -202,6 +175,13 @@ func Index(
 				}
 			}
 
+			curr = int64(counter.BytesRead)
+
+			// Skip the content before indexing the header so that headers with content which has been cut off aren't indexed
+			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				return err
+			}
+
 			if i >= offset {
 				if err := decryptHeader(hdr, i-offset); err != nil {
 					return err
@@ -216,12 +196,6 @@ func Index(
 				}
 			}
 
-			curr = int64(counter.BytesRead)
-
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
-				return err
-			}
-
 			currAndSize := int64(counter.BytesRead)
 
 			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
@@ -240,6 +214,29 @@ func Index(
 	return nil
 }
 
+// seekToNextHeader seeks to the first block at or after the position which is not empty
+func seekToNextHeader(drive io.ReadSeeker, position int64) (int64, error) {
+	if _, err := drive.Seek(position, io.SeekStart); err != nil {
+		return -1, err
+	}
+
+	block := make([]byte, config.MagneticTapeBlockSize)
+	empty := make([]byte, config.MagneticTapeBlockSize)
+	for {
+		if _, err := io.ReadFull(drive, block); err != nil {
+			return -1, err
+		}
+
+		if !bytes.Equal(block, empty) {
+			_, err := drive.Seek(position, io.SeekStart)
+
+			return position, err
+		}
+
+		position += config.MagneticTapeBlockSize
+	}
+}
+
 func indexHeader(
 	record, block int64,
 	hdr *tar.Header,
-- 
2.43.0


From 67b1d63d25886c4c1a3175b57f993da46743d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 13/37] fix: look up the root directory instead of guessing it
 from the first path

Looking up an absolute path before the root directory was known made that
path the root.
---
 pkg/persisters/metadata.go | 39 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 0732387..c1fa480 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -100,6 +100,13 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 
 	hdr := *idbhdr
 	if !initializing {
+		// If there are no headers and the incoming path is absolute, assume it is root
+		if p.root == "" && !p.rootIsEmptyString && strings.HasPrefix(hdr.Name, "/") && !pathext.IsRoot(hdr.Name, false) {
+			if _, err := p.GetRootPath(ctx); err == config.ErrNoRootDirectory {
+				p.root = hdr.Name
+			}
+		}
+
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
 	}
 
@@ -381,39 +388,19 @@ func (p *MetadataPersister) PurgeAllHeaders(ctx context.Context) error {
 	return nil
 }
 
-func (p *MetadataPersister) headerExistsExact(ctx context.Context, name string) error {
-	exists, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" = ?", name),
-		qm.Where(models.HeaderColumns.Deleted+" != 1"),
-	).Exists(ctx, p.sqlite.DB)
-	if err != nil {
-		return err
-	}
-
-	if !exists {
-		return sql.ErrNoRows
+func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) string {
+	// If root has not been set yet, look it up
+	if p.root == "" && !p.rootIsEmptyString && (pathext.IsRoot(name, false) || strings.HasPrefix(name, "/")) {
+		if root, err := p.GetRootPath(ctx); err == nil && root == "" {
+			p.rootIsEmptyString = true
+		}
 	}
 
-	return nil
-}
-
-func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) string {
 	// If root is queried, return actual root
 	if pathext.IsRoot(name, false) || name == p.root {
 		return p.root
 	}
 
-	// If root has not been set, the incoming path is absolute and no header with the exact name "" (empty string) exists, assume it is root
-	if p.root == "" && strings.HasPrefix(name, "/") && !p.rootIsEmptyString {
-		if err := p.headerExistsExact(ctx, ""); err != nil {
-			p.root = name
-
-			return p.root
-		} else {
-			p.rootIsEmptyString = true
-		}
-	}
-
 	// Keep absolute paths untouched if root is also absolute
 	if strings.HasPrefix(p.root, "/") && strings.HasPrefix(name, "/") {
 		return name
-- 
2.43.0


From f7af22cf1c6d7df6d4c9523fc28c19857ba4af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 14/37] fix: initializing over an existing tape neither removes
 nor appends anything

Index what the index is missing, start over if the index contains headers
which are no longer on the tape, refuse to append to a torn tape and only
create a root directory if there is none on the tape; before, any error
while indexing purged the index and appended another root directory.
---
 pkg/fs/filesystem.go | 145 ++++++++++++++++++++++++++++++-------------
 1 file changed, 102 insertions(+), 43 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index b3a4cc4..7d87b9d 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -198,65 +198,124 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	defer f.ioLock.Unlock()
 
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
-	if err == config.ErrNoRootDirectory {
-		mkdirRoot := func() (string, error) {
-			if f.readOnly {
-				return "", os.ErrPermission
-			}
+	if err != nil && err != config.ErrNoRootDirectory {
+		return "", err
+	}
+	hasRoot := err == nil
 
-			if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, true, "", true); err != nil {
-				return "", err
-			}
+	// Read-only filesystems must not change an existing index
+	if hasRoot && f.readOnly {
+		return existingRoot, nil
+	}
 
-			// Ensure that the new root path is being used
-			return f.metadata.Metadata.GetRootPath(context.Background())
+	mkdirRoot := func(overwrite bool) (string, error) {
+		if f.readOnly {
+			return "", os.ErrPermission
 		}
 
-		reader, err := f.readOps.GetBackend().GetReader()
-		if err != nil {
-			return mkdirRoot()
+		if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, overwrite, "", true); err != nil {
+			return "", err
 		}
 
-		if err := recovery.Index(
-			reader,
-			f.readOps.GetBackend().MagneticTapeIO,
-			f.readOps.GetMetadata(),
-			f.readOps.GetPipes(),
-			f.readOps.GetCrypto(),
+		// Ensure that the new root path is being used
+		return f.metadata.Metadata.GetRootPath(context.Background())
+	}
 
-			0,
-			0,
-			true,
-			false,
-			0,
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		// There is nothing to be overwritten if the tape doesn't exist yet
+		if !hasRoot && os.IsNotExist(err) {
+			return mkdirRoot(true)
+		}
 
-			func(hdr *tar.Header, i int) error {
-				return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
-			},
-			func(hdr *tar.Header, isRegular bool) error {
-				return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
-			},
+		return "", err
+	}
 
-			f.onHeader,
-		); err != nil {
-			if err := f.readOps.GetBackend().CloseReader(); err != nil {
-				return "", err
-			}
+	headers, indexErr := f.indexWithoutLocking(reader, hasRoot)
+	if err := f.readOps.GetBackend().CloseReader(); err != nil {
+		return "", err
+	}
 
-			return mkdirRoot()
+	if indexErr != nil {
+		// Blank tapes can't be read from
+		if !reader.DriveIsRegular && !hasRoot && headers == 0 {
+			return mkdirRoot(true)
 		}
 
-		if err := f.readOps.GetBackend().CloseReader(); err != nil {
-			return "", err
+		// Everything up to a torn tail can be read, but nothing can be appended to it
+		if !f.readOnly || !errors.Is(indexErr, io.ErrUnexpectedEOF) {
+			return "", indexErr
 		}
+	}
 
-		// Ensure that the new root path is being used
-		return f.metadata.Metadata.GetRootPath(context.Background())
-	} else if err != nil {
-		return "", err
+	// Ensure that the new root path is being used
+	root, err = f.metadata.Metadata.GetRootPath(context.Background())
+	if err == config.ErrNoRootDirectory {
+		return mkdirRoot(headers == 0)
 	}
 
-	return existingRoot, nil
+	return root, err
+}
+
+// indexWithoutLocking adds everything that the index doesn't contain yet to it and returns the count of headers it has found
+func (f *STFS) indexWithoutLocking(reader config.DriveReaderConfig, hasIndex bool) (int, error) {
+	f.log.Trace("FileSystem.indexWithoutLocking", map[string]interface{}{
+		"hasIndex": hasIndex,
+	})
+
+	record, block, offset := int64(0), int64(0), 0
+	overwrite := true
+	if hasIndex {
+		lastIndexedRecord, lastIndexedBlock, err := f.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), f.readOps.GetPipes().RecordSize)
+		if err != nil {
+			return 0, err
+		}
+
+		isBeforeEnd := true
+		if reader.DriveIsRegular {
+			size, err := reader.Drive.Seek(0, io.SeekEnd)
+			if err != nil {
+				return 0, err
+			}
+
+			isBeforeEnd = (lastIndexedRecord*int64(f.readOps.GetPipes().RecordSize)+lastIndexedBlock)*config.MagneticTapeBlockSize < size
+		}
+
+		// If the index contains headers which are not on the tape (anymore), start from scratch
+		if isBeforeEnd {
+			record, block = lastIndexedRecord, lastIndexedBlock
+			offset = 1 // Ignore the first header, which is the last header which we already indexed
+			overwrite = false
+		}
+	}
+
+	headers := 0
+	err := recovery.Index(
+		reader,
+		f.readOps.GetBackend().MagneticTapeIO,
+		f.readOps.GetMetadata(),
+		f.readOps.GetPipes(),
+		f.readOps.GetCrypto(),
+
+		int(record),
+		int(block),
+		overwrite,
+		false,
+		offset,
+
+		func(hdr *tar.Header, i int) error {
+			headers++
+
+			return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
+		},
+
+		f.onHeader,
+	)
+
+	return headers, err
 }
 
 func (f *STFS) checkParentWithoutLocking(name string) error {
-- 
2.43.0


From 6b83f9cd4661d06dbe1a8e771551398bac1fb41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 15/37] fix: a failed operation leaves nothing behind on the
 tape

Remove what a failed operation has written from regular drives, refuse to
update headers which don't exist, index headers which could not be indexed
when they were written before any later ones instead of attributing their
positions to later headers, don't skip the first header of an empty index,
and don't panic without an event handler.
---
 pkg/operations/archive.go    |  60 ++++-----------
 pkg/operations/delete.go     |  60 +++++----------
 pkg/operations/index.go      | 143 +++++++++++++++++++++++++++++++++++
 pkg/operations/move.go       |  60 +++++----------
 pkg/operations/operations.go |   6 ++
 pkg/operations/update.go     |  61 +++++----------
 6 files changed, 221 insertions(+), 169 deletions(-)
 create mode 100644 pkg/operations/index.go

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index ce2ac68..b9ab325 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -16,7 +16,6 @@ import (
 	"github.com/pojntfx/stfs/pkg/compression"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -48,14 +47,23 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
+	rollback := func() error {
+		return nil
+	}
 	writing := true
 	defer func() {
-		// Free the drive if we return before having closed the writer
+		// Remove what has been written and free the drive if we return before having closed the writer
 		if writing {
+			_ = rollback()
 			_ = o.backend.CloseWriter()
 		}
 	}()
 
+	rollback, err = getRollback(writer)
+	if err != nil {
+		return []*tar.Header{}, err
+	}
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -264,54 +272,16 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
-	index := 1 // Ignore the first header, which is the last header which we already indexed
-	if overwrite {
-		index = 0 // If we are starting fresh, index from start
-	}
-
 	writing = false
-	if err := o.backend.CloseWriter(); err != nil {
-		return []*tar.Header{}, err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-	defer o.backend.CloseReader()
 
-	return hdrs, recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
+	return hdrs, o.closeWriterAndIndex(
+		hdrs,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		lastIndexedRecord,
+		lastIndexedBlock,
 		overwrite,
 		initializing,
-		index,
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
 
-			*hdr = *hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeArchive,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
+		config.HeaderEventTypeArchive,
 	)
 }
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index e463934..4c4eb50 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -11,7 +11,6 @@ import (
 	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -26,14 +25,23 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	rollback := func() error {
+		return nil
+	}
 	writing := true
 	defer func() {
-		// Free the drive if we return before having closed the writer
+		// Remove what has been written and free the drive if we return before having closed the writer
 		if writing {
+			_ = rollback()
 			_ = o.backend.CloseWriter()
 		}
 	}()
 
+	rollback, err = getRollback(writer)
+	if err != nil {
+		return err
+	}
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -70,7 +78,7 @@ func (o *Operations) Delete(name string) error {
 	}
 
 	// Append deletion hdrs to the tape or tar file
-	hdrs := []tar.Header{}
+	hdrs := []*tar.Header{}
 	for _, dbhdr := range headersToDelete {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -81,7 +89,8 @@ func (o *Operations) Delete(name string) error {
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
-		hdrs = append(hdrs, *hdr)
+		hdrToAppend := *hdr
+		hdrs = append(hdrs, &hdrToAppend)
 
 		if o.onHeader != nil {
 			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
@@ -116,48 +125,15 @@ func (o *Operations) Delete(name string) error {
 	}
 
 	writing = false
-	if err := o.backend.CloseWriter(); err != nil {
-		return err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return err
-	}
-	defer o.backend.CloseReader()
 
-	return recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
+	return o.closeWriterAndIndex(
+		hdrs,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		lastIndexedRecord,
+		lastIndexedBlock,
 		false,
 		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = hdrs[i]
 
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeDelete,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
+		config.HeaderEventTypeDelete,
 	)
 }
diff --git a/pkg/operations/index.go b/pkg/operations/index.go
new file mode 100644
index 0000000..8b35e30
--- /dev/null
+++ b/pkg/operations/index.go
@@ -0,0 +1,143 @@
+package operations
+
+import (
+	"archive/tar"
+	"context"
+	"os"
+
+	"github.com/pojntfx/stfs/pkg/config"
+	"github.com/pojntfx/stfs/pkg/recovery"
+)
+
+type truncatable interface {
+	Stat() (os.FileInfo, error)
+	Truncate(size int64) error
+}
+
+// getRollback returns a function which removes everything that will have been appended to the drive by then; tape drives can't be rolled back
+func getRollback(writer config.DriveWriterConfig) (func() error, error) {
+	drive, ok := writer.Drive.(truncatable)
+	if !ok || !writer.DriveIsRegular {
+		return func() error {
+			return nil
+		}, nil
+	}
+
+	info, err := drive.Stat()
+	if err != nil {
+		return nil, err
+	}
+
+	return func() error {
+		return drive.Truncate(info.Size())
+	}, nil
+}
+
+// closeWriterAndIndex frees the drive and adds the headers which have been appended to the tape to the index
+func (o *Operations) closeWriterAndIndex(
+	hdrs []*tar.Header,
+
+	record int64,
+	block int64,
+	overwrite bool,
+	initializing bool,
+
+	eventType string,
+) (err error) {
+	offset := 1 // Ignore the first header, which is the last header which we already indexed
+	if overwrite {
+		offset = 0 // If we are starting fresh, index from start
+	} else if record == 0 && block == 0 {
+		if _, err := o.metadata.Metadata.GetRootPath(context.Background()); err == config.ErrNoRootDirectory {
+			offset = 0 // There is no last header if nothing has been indexed yet
+		}
+	}
+
+	// Headers which could not be indexed before come first, except if they have been indexed by someone else in the meantime
+	if !overwrite && record == o.unindexedRecord && block == o.unindexedBlock {
+		hdrs = append(o.unindexed, hdrs...)
+	}
+	o.unindexed = nil
+
+	indexed := 0
+	indexedRecord, indexedBlock := record, block
+	defer func() {
+		// Remember the headers which could not be indexed
+		if err == nil || overwrite || offset == 0 || indexed > len(hdrs) {
+			return
+		}
+
+		o.unindexed, o.unindexedRecord, o.unindexedBlock = hdrs[indexed:], indexedRecord, indexedBlock
+	}()
+
+	if err := o.backend.CloseWriter(); err != nil {
+		return err
+	}
+
+	reader, err := o.backend.GetReader()
+	if err != nil {
+		return err
+	}
+	defer o.backend.CloseReader()
+
+	var curr *config.Header
+	setIndexed := func() {
+		if curr != nil {
+			indexed++
+			indexedRecord, indexedBlock = curr.Record, curr.Block
+		}
+	}
+
+	if err := recovery.Index(
+		reader,
+		o.backend.MagneticTapeIO,
+		o.metadata,
+		o.pipes,
+		o.crypto,
+
+		int(record),
+		int(block),
+		overwrite,
+		initializing,
+		offset,
+
+		func(hdr *tar.Header, i int) error {
+			// The index asks for the next header once it is done with the current one
+			setIndexed()
+			curr = nil
+
+			if len(hdrs) <= i {
+				return config.ErrTarHeaderMissing
+			}
+
+			*hdr = *hdrs[i]
+
+			return nil
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return nil // We sign above, no need to verify
+		},
+
+		func(hdr *config.Header) {
+			curr = hdr
+
+			if o.onHeader == nil {
+				return
+			}
+
+			o.onHeader(&config.HeaderEvent{
+				Type:    eventType,
+				Indexed: true,
+				Header:  hdr,
+			})
+		},
+	); err != nil {
+		if lastRecord, lastBlock, e := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize); e == nil && curr != nil && lastRecord == curr.Record && lastBlock == curr.Block {
+			setIndexed()
+		}
+
+		return err
+	}
+
+	return nil
+}
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 1df9a3b..be41540 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -14,7 +14,6 @@ import (
 	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -34,14 +33,23 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	rollback := func() error {
+		return nil
+	}
 	writing := true
 	defer func() {
-		// Free the drive if we return before having closed the writer
+		// Remove what has been written and free the drive if we return before having closed the writer
 		if writing {
+			_ = rollback()
 			_ = o.backend.CloseWriter()
 		}
 	}()
 
+	rollback, err = getRollback(writer)
+	if err != nil {
+		return err
+	}
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -93,7 +101,7 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	// Append move headers to the tape or tar file
-	hdrs := []tar.Header{}
+	hdrs := []*tar.Header{}
 	for _, dbhdr := range headersToMove {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -106,7 +114,8 @@ func (o *Operations) Move(from string, to string) error {
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
 
-		hdrs = append(hdrs, *hdr)
+		hdrToAppend := *hdr
+		hdrs = append(hdrs, &hdrToAppend)
 
 		if o.onHeader != nil {
 			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
@@ -141,48 +150,15 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	writing = false
-	if err := o.backend.CloseWriter(); err != nil {
-		return err
-	}
 
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return err
-	}
-	defer o.backend.CloseReader()
-
-	return recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
+	return o.closeWriterAndIndex(
+		hdrs,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		lastIndexedRecord,
+		lastIndexedBlock,
 		false,
 		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = hdrs[i]
 
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeMove,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
+		config.HeaderEventTypeMove,
 	)
 }
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index c34b464..34e9cfb 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -1,6 +1,7 @@
 package operations
 
 import (
+	"archive/tar"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -15,6 +16,11 @@ type Operations struct {
 
 	onHeader func(event *config.HeaderEvent)
 
+	// Headers which are already on the tape after this record and block, but could not be indexed yet
+	unindexed       []*tar.Header
+	unindexedRecord int64
+	unindexedBlock  int64
+
 	diskOperationLock sync.Mutex
 }
 
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index f9bd0d7..89a52f9 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -4,6 +4,7 @@ import (
 	"archive/tar"
 	"context"
 	"io"
+	"path/filepath"
 	"strconv"
 	"strings"
 
@@ -15,7 +16,6 @@ import (
 	"github.com/pojntfx/stfs/pkg/compression"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -33,14 +33,23 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	rollback := func() error {
+		return nil
+	}
 	writing := true
 	defer func() {
-		// Free the drive if we return before having closed the writer
+		// Remove what has been written and free the drive if we return before having closed the writer
 		if writing {
+			_ = rollback()
 			_ = o.backend.CloseWriter()
 		}
 	}()
 
+	rollback, err = getRollback(writer)
+	if err != nil {
+		return []*tar.Header{}, err
+	}
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -73,6 +82,11 @@ func (o *Operations) Update(
 			return []*tar.Header{}, err
 		}
 
+		// Prevent updating headers which don't exist
+		if _, err := o.metadata.Metadata.GetHeader(context.Background(), filepath.ToSlash(file.Path)); err != nil {
+			return []*tar.Header{}, err
+		}
+
 		hdr.Name = file.Path
 		hdr.Format = tar.FormatPAX
 		if hdr.PAXRecords == nil {
@@ -288,48 +302,15 @@ func (o *Operations) Update(
 	}
 
 	writing = false
-	if err := o.backend.CloseWriter(); err != nil {
-		return []*tar.Header{}, err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-	defer o.backend.CloseReader()
 
-	return hdrs, recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
+	return hdrs, o.closeWriterAndIndex(
+		hdrs,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		lastIndexedRecord,
+		lastIndexedBlock,
 		false,
 		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
 
-			*hdr = *hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeUpdate,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
+		config.HeaderEventTypeUpdate,
 	)
 }
-- 
2.43.0


From a423cd94d60e77b171a0efbcf025c30bfa637c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 16/37] fix: only write full records to tape drives

---
 internal/tarext/write.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/internal/tarext/write.go b/internal/tarext/write.go
index af6a251..b36544e 100644
--- a/internal/tarext/write.go
+++ b/internal/tarext/write.go
@@ -9,6 +9,28 @@ import (
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
+// recordWriter splits large writes, which the buffered writer would pass on as they are, so that only full records are written to the drive
+type recordWriter struct {
+	bw *bufio.Writer
+}
+
+func (w recordWriter) Write(p []byte) (n int, err error) {
+	for n < len(p) {
+		end := n + w.bw.Size()
+		if end > len(p) {
+			end = len(p)
+		}
+
+		m, err := w.bw.Write(p[n:end])
+		n += m
+		if err != nil {
+			return n, err
+		}
+	}
+
+	return n, nil
+}
+
 func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer, cleanup func(dirty *bool) error, err error) {
 	var bw *bufio.Writer
 	var counter *ioext.CounterWriter
@@ -16,7 +38,7 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 		tw = tar.NewWriter(f)
 	} else {
 		bw = bufio.NewWriterSize(f, config.MagneticTapeBlockSize*recordSize)
-		counter = &ioext.CounterWriter{Writer: bw, BytesRead: 0}
+		counter = &ioext.CounterWriter{Writer: recordWriter{bw}, BytesRead: 0}
 		tw = tar.NewWriter(counter)
 	}
 
@@ -28,9 +50,9 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 			}
 
 			if !isRegular {
-				if config.MagneticTapeBlockSize*recordSize-counter.BytesRead > 0 {
-					// Fill the rest of the record with zeros
-					if _, err := bw.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-counter.BytesRead)); err != nil {
+				if remainder := counter.BytesRead % (config.MagneticTapeBlockSize * recordSize); remainder > 0 {
+					// Fill the rest of the last record with zeros
+					if _, err := bw.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-remainder)); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From 7cd70d74ccf71c4ee11ca40f9e192931e2b60e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 17/37] fix: keep the root directory of a tape when rebuilding
 its index

Rebuilding the index of a tape whose root is / turned its names into relative
ones, but not the names of its symlinks, which got lost.
---
 pkg/persisters/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index c1fa480..0f6ec38 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -101,7 +101,7 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 	hdr := *idbhdr
 	if !initializing {
 		// If there are no headers and the incoming path is absolute, assume it is root
-		if p.root == "" && !p.rootIsEmptyString && strings.HasPrefix(hdr.Name, "/") && !pathext.IsRoot(hdr.Name, false) {
+		if p.root == "" && !p.rootIsEmptyString && strings.HasPrefix(hdr.Name, "/") {
 			if _, err := p.GetRootPath(ctx); err == config.ErrNoRootDirectory {
 				p.root = hdr.Name
 			}
-- 
2.43.0


From 8c2a9de240805dff13bd4456def989a170690b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 18/37] fix: entries indexed from any tar format can be removed
 and moved

The headers kept the format they were read with, so the records which delete or
move an entry could not be written if it was not PAX.
---
 pkg/operations/delete.go | 1 +
 pkg/operations/move.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index 4c4eb50..fc50ec6 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -85,6 +85,7 @@ func (o *Operations) Delete(name string) error {
 			return err
 		}
 
+		hdr.Format = tar.FormatPAX
 		hdr.Size = 0 // Don't try to seek after the record
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index be41540..423fa49 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -108,6 +108,7 @@ func (o *Operations) Move(from string, to string) error {
 			return err
 		}
 
+		hdr.Format = tar.FormatPAX
 		hdr.Size = 0 // Don't try to seek after the record
 		hdr.Name = path.Join(to, strings.TrimPrefix(dbhdr.Name, strings.TrimSuffix(headersToMove[0].Name, "/")))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
-- 
2.43.0


From 91c8b78c408ae00eec6bc4ae2e57d39ea0a28839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 19/37] fix: don't crash if the size of the drive can't be
 determined before writing

---
 pkg/operations/index.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/operations/index.go b/pkg/operations/index.go
index 8b35e30..355a485 100644
--- a/pkg/operations/index.go
+++ b/pkg/operations/index.go
@@ -16,16 +16,18 @@ type truncatable interface {
 
 // getRollback returns a function which removes everything that will have been appended to the drive by then; tape drives can't be rolled back
 func getRollback(writer config.DriveWriterConfig) (func() error, error) {
+	noop := func() error {
+		return nil
+	}
+
 	drive, ok := writer.Drive.(truncatable)
 	if !ok || !writer.DriveIsRegular {
-		return func() error {
-			return nil
-		}, nil
+		return noop, nil
 	}
 
 	info, err := drive.Stat()
 	if err != nil {
-		return nil, err
+		return noop, err
 	}
 
 	return func() error {
-- 
2.43.0


From 8459739f358a22efe4a6e742719e72c8278f130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 20/37] fix: contents encrypted with PGP can be read past their
 end

The integrity of a PGP message is checked each time its end is read, and
fails from the second time on. The parallel bzip2 decompressor does so for
larger contents, which made them unreadable.
---
 internal/ioext/eof.go     | 21 +++++++++++++++++++++
 pkg/encryption/decrypt.go |  4 +++-
 2 files changed, 24 insertions(+), 1 deletion(-)
 create mode 100644 internal/ioext/eof.go

diff --git a/internal/ioext/eof.go b/internal/ioext/eof.go
new file mode 100644
index 0000000..3acfc1f
--- /dev/null
+++ b/internal/ioext/eof.go
@@ -0,0 +1,21 @@
+package ioext
+
+import "io"
+
+// EOFReader keeps returning `io.EOF` without reading from the underlying reader once it has been reached
+type EOFReader struct {
+	Reader io.Reader
+
+	eof bool
+}
+
+func (r *EOFReader) Read(p []byte) (n int, err error) {
+	if r.eof {
+		return 0, io.EOF
+	}
+
+	n, err = r.Reader.Read(p)
+	r.eof = err == io.EOF
+
+	return n, err
+}
diff --git a/pkg/encryption/decrypt.go b/pkg/encryption/decrypt.go
index fcc6517..3353b24 100644
--- a/pkg/encryption/decrypt.go
+++ b/pkg/encryption/decrypt.go
@@ -9,6 +9,7 @@ import (
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
@@ -42,7 +43,8 @@ func Decrypt(
 			return nil, err
 		}
 
-		return io.NopCloser(r.UnverifiedBody), nil
+		// The integrity of the message is checked each time that its end is read, which only works once
+		return io.NopCloser(&ioext.EOFReader{Reader: r.UnverifiedBody}), nil
 	case config.NoneKey:
 		return io.NopCloser(src), nil
 	default:
-- 
2.43.0


From 91afc76137b2d2247d3ef496fdd6ee7ddf46bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 21/37] fix: reading a file whose content can't be restored is
 an error

If restoring ended with io.EOF, i.e. because the content was removed from the
tape, reading reported the end of an empty file instead of an error.
---
 pkg/fs/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index eedffff..08c721e 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -258,6 +258,11 @@ func (f *File) openBuffer(restore bool) error {
 			_ = writeBuf.Close()
 			_ = cleanWriteBuf()
 
+			// The content's end must not be confused with the end of the record it should have been in
+			if err == io.EOF {
+				return io.ErrUnexpectedEOF
+			}
+
 			return err
 		}
 	}
-- 
2.43.0


From 53cf03e70d570d749f96d89aa74fc6369490b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:04 +0000
Subject: [PATCH 22/37] fix: there is no root anymore once everything has been
 deleted

---
 pkg/persisters/metadata.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 0f6ec38..2d22c49 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -351,6 +351,19 @@ func (p *MetadataPersister) DeleteHeader(ctx context.Context, name string, lastk
 		return nil, err
 	}
 
+	// There is no root anymore once everything has been deleted
+	notEmpty, err := models.Headers(
+		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+	).Exists(ctx, p.sqlite.DB)
+	if err != nil {
+		return nil, err
+	}
+
+	if !notEmpty {
+		p.root = ""
+		p.rootIsEmptyString = false
+	}
+
 	return converters.DBHeaderToConfigHeader(hdr), nil
 }
 
-- 
2.43.0


From 7f3919184c6330cf667163926b525dbe71ab0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 23/37] fix: directories which were archived with a trailing
 slash can be removed, moved and looked up by relative paths

---
 pkg/persisters/metadata.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 2d22c49..a3247ff 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -409,8 +409,13 @@ func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) s
 		}
 	}
 
+	// Directories in foreign archives can have trailing slashes
+	if trimmedName := strings.TrimRight(name, "/"); trimmedName != "" && trimmedName != "." {
+		name = trimmedName
+	}
+
 	// If root is queried, return actual root
-	if pathext.IsRoot(name, false) || name == p.root {
+	if pathext.IsRoot(name, false) || name == strings.TrimRight(p.root, "/") {
 		return p.root
 	}
 
-- 
2.43.0


From c5f7ba176203dfdbafef56ad4e60838f629ff05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:35 +0000
Subject: [PATCH 24/37] fix: PGP keys only parse with the password which they
 were generated with

---
 pkg/keys/identity.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pkg/keys/identity.go b/pkg/keys/identity.go
index 116a022..713912d 100644
--- a/pkg/keys/identity.go
+++ b/pkg/keys/identity.go
@@ -43,20 +43,19 @@ func ParseIdentity(
 			return nil, err
 		}
 
-		if password != "" {
-			for _, identity := range identities {
-				if identity.PrivateKey == nil {
-					return nil, config.ErrIdentityUnparsable
-				}
+		// Keys which were generated with an empty password are encrypted with it too
+		for _, identity := range identities {
+			if identity.PrivateKey == nil {
+				return nil, config.ErrIdentityUnparsable
+			}
 
-				if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
-					return nil, err
-				}
+			if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				return nil, err
+			}
 
-				for _, subkey := range identity.Subkeys {
-					if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
-						return nil, err
-					}
+			for _, subkey := range identity.Subkeys {
+				if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
+					return nil, err
 				}
 			}
 		}
-- 
2.43.0


From 25de105e71aa7ee62ed8a684fa6ae2d75e7a11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 25/37] fix: searching with an invalid expression returns an
 error instead of crashing

---
 pkg/inventory/find.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/inventory/find.go b/pkg/inventory/find.go
index ebfaea7..a8db410 100644
--- a/pkg/inventory/find.go
+++ b/pkg/inventory/find.go
@@ -16,6 +16,11 @@ func Find(
 
 	onHeader func(hdr *config.Header),
 ) ([]*tar.Header, error) {
+	exp, err := regexp.Compile(expression)
+	if err != nil {
+		return []*tar.Header{}, err
+	}
+
 	dbHdrs, err := metadata.Metadata.GetHeaders(context.Background())
 	if err != nil {
 		return []*tar.Header{}, err
@@ -23,7 +28,7 @@ func Find(
 
 	headers := []*tar.Header{}
 	for _, dbhdr := range dbHdrs {
-		if regexp.MustCompile(expression).Match([]byte(dbhdr.Name)) {
+		if exp.Match([]byte(dbhdr.Name)) {
 			hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 			if err != nil {
 				return []*tar.Header{}, err
-- 
2.43.0


From daaf2d571c5553d160259a65bcc598351138eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 26/37] fix: querying a tape ends if the drive can't be read
 and finds records behind longer gaps

---
 pkg/recovery/query.go | 87 ++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 60 deletions(-)

diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index f2c1b02..37f6d8c 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -28,63 +28,42 @@ func Query(
 	headers := []*tar.Header{}
 
 	if reader.DriveIsRegular {
-		// Seek to record and block
-		if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*record)+block*config.MagneticTapeBlockSize), 0); err != nil {
-			return []*tar.Header{}, err
-		}
-
-		tr := tar.NewReader(reader.Drive)
-
-		record := int64(record)
-		block := int64(block)
+		position := int64((pipes.RecordSize * config.MagneticTapeBlockSize * record) + block*config.MagneticTapeBlockSize)
 
 		for {
-			hdr, err := tr.Next()
-			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return []*tar.Header{}, err
-					}
+			var err error
 
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return []*tar.Header{}, err
-					}
+			// Skip the trailers and padding between archives; this makes it possible to query a tar file which has been appended to
+			position, err = seekToNextHeader(reader.Drive, position)
+			if err != nil {
+				if err == io.EOF || err == io.ErrUnexpectedEOF {
+					// EOF
+					break
+				}
 
-					tr = tar.NewReader(reader.Drive)
+				return []*tar.Header{}, err
+			}
 
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
+			totalBlocks := position / config.MagneticTapeBlockSize
+			record := totalBlocks / int64(pipes.RecordSize)
+			block := totalBlocks - (record * int64(pipes.RecordSize))
 
-							break
-						}
+			tr := tar.NewReader(reader.Drive)
+			hdr, err := tr.Next()
+			if err != nil {
+				if err == tar.ErrHeader {
+					// Not a header, try again with the next block
+					position += config.MagneticTapeBlockSize
 
-						continue
-					}
+					continue
+				}
 
+				if err == io.EOF || err == io.ErrUnexpectedEOF {
+					// The header has been cut off
 					break
 				}
-			}
 
-			if hdr == nil {
-				// EOF
-
-				break
+				return []*tar.Header{}, err
 			}
 
 			if err := encryption.DecryptHeader(hdr, pipes.Encryption, crypto.Identity); err != nil {
@@ -106,28 +85,16 @@ func Query(
 
 			headers = append(headers, hdr)
 
-			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return []*tar.Header{}, err
-			}
-
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
 				return []*tar.Header{}, err
 			}
 
-			currAndSize, err := reader.Drive.Seek(0, io.SeekCurrent)
+			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
 			if err != nil {
 				return []*tar.Header{}, err
 			}
 
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
-			}
+			position = int64(math.Ceil(float64(curr)/float64(config.MagneticTapeBlockSize))) * config.MagneticTapeBlockSize
 		}
 	} else {
 		// Seek to record
-- 
2.43.0


From 8b034131c0a56b56e27d2a38d689e9b683b4f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 27/37] fix: Report an error when restoring a record whose
 content has been cut off completely

---
 pkg/recovery/fetch.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 7d2ecb3..e7c3600 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -132,6 +132,11 @@ func Fetch(
 			return err
 		}
 
+		// Decompressors may mistake a record whose content is cut off for an empty one, so make sure that it can be read to its end
+		if _, err := io.Copy(io.Discard, tr); err != nil {
+			return err
+		}
+
 		if err := verify(); err != nil {
 			return err
 		}
-- 
2.43.0


From 1f14d420d76958a027adcfcc851b83a2e642987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 28/37] fix: querying a tape behind a filemark returns the
 positions of its headers

---
 pkg/recovery/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index 37f6d8c..ed7a2da 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -132,8 +132,8 @@ func Query(
 					block = 0
 
 					br = bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
-					curr := int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
-					counter := &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
+					curr = int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
+					counter = &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
 					tr = tar.NewReader(counter)
 
 					continue
-- 
2.43.0


From fc63ff1deceb56f0ef66f0e5736606b932900000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 29/37] fix: moving an entry with symlinks to it records its
 last position

---
 pkg/operations/move.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 423fa49..abb1ba2 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -102,7 +102,14 @@ func (o *Operations) Move(from string, to string) error {
 
 	// Append move headers to the tape or tar file
 	hdrs := []*tar.Header{}
+	moved := map[string]bool{}
 	for _, dbhdr := range headersToMove {
+		// A name is moved together with the symlinks to it
+		if moved[dbhdr.Name] {
+			continue
+		}
+		moved[dbhdr.Name] = true
+
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
 			return err
-- 
2.43.0


From ee510869cf6ed46efe9fde8e105284e64cbb1e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 30/37] fix: Chmod, Mkdir and OpenFile keep special mode bits
 and ignore type bits

---
 pkg/fs/filesystem.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 7d87b9d..a073e6f 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -153,7 +153,7 @@ func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, ove
 		Name:     name,
 		Linkname: linkname,
 
-		Mode:  int64(perm),
+		Mode:  getTarMode(perm),
 		Uid:   uid,
 		Gid:   gid,
 		Uname: usr.Username,
@@ -1026,7 +1026,7 @@ func (f *STFS) Chmod(name string, mode os.FileMode) error {
 		}
 	}
 
-	hdr.Mode = int64(mode)
+	hdr.Mode = getTarMode(mode)
 
 	return f.updateMetadata(hdr)
 }
@@ -1302,6 +1302,23 @@ func checkName(name string) bool {
 	return len(name) == 0
 }
 
+// getTarMode converts permissions to the mode bits of a tar header
+func getTarMode(perm os.FileMode) int64 {
+	mode := int64(perm.Perm())
+
+	if perm&os.ModeSetuid != 0 {
+		mode |= 04000
+	}
+	if perm&os.ModeSetgid != 0 {
+		mode |= 02000
+	}
+	if perm&os.ModeSticky != 0 {
+		mode |= 01000
+	}
+
+	return mode
+}
+
 func (f *STFS) resolveCleanName(name string, aliasRoot bool) (string, error) {
 	if pathext.IsRoot(name, true) && aliasRoot {
 		var err error
-- 
2.43.0


From b39cee001679f4f0e0fe374e8e3266d752cf8d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 31/37] fix: Archive and Update don't depend on the size of the
 pieces a source returns

---
 internal/ioext/full.go    | 19 +++++++++++++++++++
 pkg/operations/archive.go |  8 ++++----
 pkg/operations/update.go  |  8 ++++----
 3 files changed, 27 insertions(+), 8 deletions(-)
 create mode 100644 internal/ioext/full.go

diff --git a/internal/ioext/full.go b/internal/ioext/full.go
new file mode 100644
index 0000000..c1c13f6
--- /dev/null
+++ b/internal/ioext/full.go
@@ -0,0 +1,19 @@
+package ioext
+
+import "io"
+
+// FullReader fills the buffers it is asked to fill if there is enough left to read, so that the
+// size of the pieces that are read does not depend on the reader
+type FullReader struct {
+	Reader io.Reader
+}
+
+func (r *FullReader) Read(p []byte) (n int, err error) {
+	for n < len(p) && err == nil {
+		var c int
+		c, err = r.Reader.Read(p[n:])
+		n += c
+	}
+
+	return n, err
+}
diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index b9ab325..684df6e 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -137,12 +137,12 @@ func (o *Operations) archive(
 			}
 
 			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
+				if _, err := io.Copy(compressor, &ioext.FullReader{Reader: signer}); err != nil {
 					return []*tar.Header{}, err
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
+				if _, err := io.CopyBuffer(compressor, &ioext.FullReader{Reader: signer}, buf); err != nil {
 					return []*tar.Header{}, err
 				}
 			}
@@ -241,12 +241,12 @@ func (o *Operations) archive(
 		}
 
 		if writer.DriveIsRegular {
-			if _, err := io.Copy(compressor, f); err != nil {
+			if _, err := io.Copy(compressor, &ioext.FullReader{Reader: f}); err != nil {
 				return []*tar.Header{}, err
 			}
 		} else {
 			buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-			if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+			if _, err := io.CopyBuffer(compressor, &ioext.FullReader{Reader: f}, buf); err != nil {
 				return []*tar.Header{}, err
 			}
 		}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 89a52f9..386e544 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -129,12 +129,12 @@ func (o *Operations) Update(
 			}
 
 			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
+				if _, err := io.Copy(compressor, &ioext.FullReader{Reader: signer}); err != nil {
 					return []*tar.Header{}, err
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
+				if _, err := io.CopyBuffer(compressor, &ioext.FullReader{Reader: signer}, buf); err != nil {
 					return []*tar.Header{}, err
 				}
 			}
@@ -236,12 +236,12 @@ func (o *Operations) Update(
 			}
 
 			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, f); err != nil {
+				if _, err := io.Copy(compressor, &ioext.FullReader{Reader: f}); err != nil {
 					return []*tar.Header{}, err
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+				if _, err := io.CopyBuffer(compressor, &ioext.FullReader{Reader: f}, buf); err != nil {
 					return []*tar.Header{}, err
 				}
 			}
-- 
2.43.0


From 0b526b813073efa45912a3cbbb9f9a73889b05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 32/37] fix: index what a failed call has appended before the
 next call checks its preconditions

---
 pkg/operations/archive.go    |  6 ++++
 pkg/operations/delete.go     |  4 +++
 pkg/operations/index.go      | 62 ++++++++++++++++++++++++++++--------
 pkg/operations/move.go       |  4 +++
 pkg/operations/operations.go |  1 +
 pkg/operations/update.go     |  4 +++
 6 files changed, 67 insertions(+), 14 deletions(-)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 684df6e..d9f63e7 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -42,6 +42,12 @@ func (o *Operations) archive(
 	initializing bool,
 ) ([]*tar.Header, error) {
 
+	if !overwrite {
+		if err := o.indexUnindexed(); err != nil {
+			return []*tar.Header{}, err
+		}
+	}
+
 	writer, err := o.backend.GetWriter()
 	if err != nil {
 		return []*tar.Header{}, err
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index fc50ec6..b7c2117 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -20,6 +20,10 @@ func (o *Operations) Delete(name string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
+	if err := o.indexUnindexed(); err != nil {
+		return err
+	}
+
 	writer, err := o.backend.GetWriter()
 	if err != nil {
 		return err
diff --git a/pkg/operations/index.go b/pkg/operations/index.go
index 355a485..faf4afc 100644
--- a/pkg/operations/index.go
+++ b/pkg/operations/index.go
@@ -45,7 +45,7 @@ func (o *Operations) closeWriterAndIndex(
 	initializing bool,
 
 	eventType string,
-) (err error) {
+) error {
 	offset := 1 // Ignore the first header, which is the last header which we already indexed
 	if overwrite {
 		offset = 0 // If we are starting fresh, index from start
@@ -55,27 +55,61 @@ func (o *Operations) closeWriterAndIndex(
 		}
 	}
 
-	// Headers which could not be indexed before come first, except if they have been indexed by someone else in the meantime
-	if !overwrite && record == o.unindexedRecord && block == o.unindexedBlock {
-		hdrs = append(o.unindexed, hdrs...)
-	}
 	o.unindexed = nil
+	if !overwrite && offset != 0 {
+		// Remember the headers until they have been indexed
+		o.unindexed, o.unindexedRecord, o.unindexedBlock, o.unindexedType = hdrs, record, block, eventType
+	}
+
+	if err := o.backend.CloseWriter(); err != nil {
+		return err
+	}
+
+	return o.index(hdrs, record, block, overwrite, initializing, offset, eventType)
+}
+
+// indexUnindexed adds the headers which a previous operation has appended to the tape but could not index to the index
+func (o *Operations) indexUnindexed() error {
+	if len(o.unindexed) == 0 {
+		return nil
+	}
+
+	record, block, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	if err != nil {
+		return err
+	}
+
+	if record != o.unindexedRecord || block != o.unindexedBlock {
+		// They have been indexed by someone else in the meantime
+		o.unindexed = nil
+
+		return nil
+	}
+
+	return o.index(o.unindexed, record, block, false, false, 1, o.unindexedType)
+}
+
+func (o *Operations) index(
+	hdrs []*tar.Header,
+
+	record int64,
+	block int64,
+	overwrite bool,
+	initializing bool,
+	offset int,
 
+	eventType string,
+) (err error) {
 	indexed := 0
 	indexedRecord, indexedBlock := record, block
 	defer func() {
-		// Remember the headers which could not be indexed
-		if err == nil || overwrite || offset == 0 || indexed > len(hdrs) {
-			return
+		if err == nil || indexed > len(hdrs) {
+			o.unindexed = nil
+		} else if len(o.unindexed) > 0 {
+			o.unindexed, o.unindexedRecord, o.unindexedBlock = hdrs[indexed:], indexedRecord, indexedBlock
 		}
-
-		o.unindexed, o.unindexedRecord, o.unindexedBlock = hdrs[indexed:], indexedRecord, indexedBlock
 	}()
 
-	if err := o.backend.CloseWriter(); err != nil {
-		return err
-	}
-
 	reader, err := o.backend.GetReader()
 	if err != nil {
 		return err
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index abb1ba2..fec7318 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -28,6 +28,10 @@ func (o *Operations) Move(from string, to string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
+	if err := o.indexUnindexed(); err != nil {
+		return err
+	}
+
 	writer, err := o.backend.GetWriter()
 	if err != nil {
 		return err
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index 34e9cfb..0ae6ef7 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -20,6 +20,7 @@ type Operations struct {
 	unindexed       []*tar.Header
 	unindexedRecord int64
 	unindexedBlock  int64
+	unindexedType   string
 
 	diskOperationLock sync.Mutex
 }
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 386e544..3fae024 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -28,6 +28,10 @@ func (o *Operations) Update(
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
+	if err := o.indexUnindexed(); err != nil {
+		return []*tar.Header{}, err
+	}
+
 	writer, err := o.backend.GetWriter()
 	if err != nil {
 		return []*tar.Header{}, err
-- 
2.43.0


From 84d8f0e34f827de7257d6b08072cb915569a3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 33/37] fix: updating the missing target of a symlink is
 refused instead of leaving the last position behind

---
 pkg/operations/update.go   | 9 ++++++++-
 pkg/persisters/metadata.go | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 3fae024..858ce18 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -3,6 +3,7 @@ package operations
 import (
 	"archive/tar"
 	"context"
+	"database/sql"
 	"io"
 	"path/filepath"
 	"strconv"
@@ -87,10 +88,16 @@ func (o *Operations) Update(
 		}
 
 		// Prevent updating headers which don't exist
-		if _, err := o.metadata.Metadata.GetHeader(context.Background(), filepath.ToSlash(file.Path)); err != nil {
+		dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), filepath.ToSlash(file.Path))
+		if err != nil {
 			return []*tar.Header{}, err
 		}
 
+		if hdr.Linkname == "" && dbhdr.Linkname != "" {
+			// There are only symlinks to the header
+			return []*tar.Header{}, sql.ErrNoRows
+		}
+
 		hdr.Name = file.Path
 		hdr.Format = tar.FormatPAX
 		if hdr.PAXRecords == nil {
diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index a3247ff..2592af2 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -212,6 +212,7 @@ func (p *MetadataPersister) GetHeader(ctx context.Context, name string) (*config
 	hdr, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", name),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+		qm.OrderBy(models.HeaderColumns.Linkname), // Prefer the header itself over symlinks to it
 	).One(ctx, p.sqlite.DB)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c01894447036c65c64955a7e14cadcf1315970f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 34/37] fix: Update checks all of its headers before it writes
 the first one

---
 pkg/operations/update.go | 70 +++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 858ce18..17dcd79 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -33,6 +33,44 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	// Check all headers before acquiring the drive; tape drives can't be rolled back
+	files := []config.FileConfig{}
+	fileHdrs := []*tar.Header{}
+	for {
+		file, err := getSrc()
+		if err == io.EOF {
+			break
+		}
+
+		if err != nil {
+			return []*tar.Header{}, err
+		}
+
+		hdr, err := tar.FileInfoHeader(file.Info, file.Link)
+		if err != nil {
+			// Skip sockets
+			if strings.Contains(err.Error(), errSocketsNotSupported.Error()) {
+				continue
+			}
+
+			return []*tar.Header{}, err
+		}
+
+		// Prevent updating headers which don't exist
+		dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), filepath.ToSlash(file.Path))
+		if err != nil {
+			return []*tar.Header{}, err
+		}
+
+		if hdr.Linkname == "" && dbhdr.Linkname != "" {
+			// There are only symlinks to the header
+			return []*tar.Header{}, sql.ErrNoRows
+		}
+
+		files = append(files, file)
+		fileHdrs = append(fileHdrs, hdr)
+	}
+
 	writer, err := o.backend.GetWriter()
 	if err != nil {
 		return []*tar.Header{}, err
@@ -67,36 +105,8 @@ func (o *Operations) Update(
 	}
 
 	hdrs := []*tar.Header{}
-	for {
-		file, err := getSrc()
-		if err == io.EOF {
-			break
-		}
-
-		if err != nil {
-			return []*tar.Header{}, err
-		}
-
-		hdr, err := tar.FileInfoHeader(file.Info, file.Link)
-		if err != nil {
-			// Skip sockets
-			if strings.Contains(err.Error(), errSocketsNotSupported.Error()) {
-				continue
-			}
-
-			return []*tar.Header{}, err
-		}
-
-		// Prevent updating headers which don't exist
-		dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), filepath.ToSlash(file.Path))
-		if err != nil {
-			return []*tar.Header{}, err
-		}
-
-		if hdr.Linkname == "" && dbhdr.Linkname != "" {
-			// There are only symlinks to the header
-			return []*tar.Header{}, sql.ErrNoRows
-		}
+	for i, file := range files {
+		hdr := fileHdrs[i]
 
 		hdr.Name = file.Path
 		hdr.Format = tar.FormatPAX
-- 
2.43.0


From 9a8253c78c201c8eeeb896180061b269b48f780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:21 +0000
Subject: [PATCH 35/37] fix: an index that is ahead of a tape which ends in
 zeros is rebuilt when opening

---
 pkg/fs/filesystem.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index a073e6f..b5968fe 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -278,7 +278,23 @@ func (f *STFS) indexWithoutLocking(reader config.DriveReaderConfig, hasIndex boo
 				return 0, err
 			}
 
-			isBeforeEnd = (lastIndexedRecord*int64(f.readOps.GetPipes().RecordSize)+lastIndexedBlock)*config.MagneticTapeBlockSize < size
+			position := (lastIndexedRecord*int64(f.readOps.GetPipes().RecordSize) + lastIndexedBlock) * config.MagneticTapeBlockSize
+			isBeforeEnd = position < size
+
+			// The tape may have been extended without the header having been written
+			if isBeforeEnd {
+				if _, err := reader.Drive.Seek(position, io.SeekStart); err != nil {
+					return 0, err
+				}
+
+				if _, err := tar.NewReader(reader.Drive).Next(); err != nil {
+					if err != io.EOF && err != io.ErrUnexpectedEOF && err != tar.ErrHeader {
+						return 0, err
+					}
+
+					isBeforeEnd = false
+				}
+			}
 		}
 
 		// If the index contains headers which are not on the tape (anymore), start from scratch
-- 
2.43.0


From 13b272109cc0d3bfddff98872fade0ce1e4ca4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 36/37] fix: a rename onto an existing entry whose index update
 failed was taken for indexed

---
 pkg/recovery/index.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index a7c5705..b8d766a 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -334,8 +334,11 @@ func indexHeader(
 
 					newHdr = h
 
-					if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
-						return err
+					// A moved header keeps its metadata; updating the header which it replaces would mark this header as indexed before it has been moved
+					if !moveAfterEdits {
+						if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
+							return err
+						}
 					}
 				}
 
-- 
2.43.0


From 4487d1721e6ceaef6cfaf9a1169aa57d79cfadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 37/37] fix: MkdirAll checks all parts of the path before it
 creates the first one

---
 pkg/fs/filesystem.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index b5968fe..268ca96 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -421,7 +421,9 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
+	// Check all parts before creating the first one
 	parts := strings.Split(filepath.ToSlash(path), "/")
+	missingPaths := []string{}
 	currentPath := ""
 
 	for i, part := range parts {
@@ -452,9 +454,7 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 					f.onHeader,
 				); err != nil {
 					if err == sql.ErrNoRows {
-						if err := f.mknodeWithoutLocking(true, currentPath, perm, false, "", false); err != nil {
-							return err
-						}
+						missingPaths = append(missingPaths, currentPath)
 					} else {
 						return err
 					}
@@ -469,6 +469,12 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 		}
 	}
 
+	for _, missingPath := range missingPaths {
+		if err := f.mknodeWithoutLocking(true, missingPath, perm, false, "", false); err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0

