From b58dc1264bbe5c18c80e276e26825d8760a4d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 01/64] fix: keep metadata and bucket caches coherent with the
 database

---
 src/common/cache/cache.go                     |   5 +
 src/common/cache/interface.go                 |   1 +
 src/metaserver/internal/app/app.go            |   6 +-
 src/metaserver/internal/usecase/db/storage.go |   9 ++
 .../internal/usecase/logic/bucket_logic.go    |   6 +-
 .../usecase/repo/batch_bucket_repo.go         |  12 +-
 .../internal/usecase/repo/batch_meta_repo.go  |  22 +--
 .../internal/usecase/repo/bucket_repo.go      |  59 +++-----
 .../internal/usecase/repo/cache_guard.go      |  77 ++++++++++
 .../internal/usecase/repo/metadata_repo.go    | 137 +++++++-----------
 10 files changed, 188 insertions(+), 146 deletions(-)
 create mode 100644 src/metaserver/internal/usecase/repo/cache_guard.go

diff --git a/src/common/cache/cache.go b/src/common/cache/cache.go
index eb04342..9bd29a7 100644
--- a/src/common/cache/cache.go
+++ b/src/common/cache/cache.go
@@ -86,6 +86,11 @@ func (c *Cache) Delete(k string) {
 	_ = c.cache.Delete(k)
 }
 
+// Reset removes all entries
+func (c *Cache) Reset() {
+	_ = c.cache.Reset()
+}
+
 func (c *Cache) Close() error {
 	defer c.close()
 	// make it closing by GC
diff --git a/src/common/cache/interface.go b/src/common/cache/interface.go
index 58fcc36..e38d8d8 100644
--- a/src/common/cache/interface.go
+++ b/src/common/cache/interface.go
@@ -9,5 +9,6 @@ type ICache interface {
 	SetGob(k string, v interface{}) bool
 	Refresh(k string)
 	Delete(k string)
+	Reset()
 	Close() error
 }
diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index b21fe17..afa4700 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -25,15 +25,17 @@ func Run(cfg *config.Config) {
 	// init repos
 	metaRepo := repo.NewMetadataRepo(pool.Storage, repo.NewMetadataCacheRepo(pool.Cache))
 	bucketRepo := repo.NewBucketRepo(pool.Storage, repo.NewBucketCacheRepo(pool.Cache))
+	pool.Storage.OnReplaced(pool.Cache.Reset)
+	batchRepo := repo.NewBatchRepo(metaRepo)
 	// init raft
-	fsm := raftimpl.NewFSM(metaRepo, repo.NewBatchRepo(pool.Storage), bucketRepo, repo.NewBatchBucketRepo(pool.Storage), metaRepo)
+	fsm := raftimpl.NewFSM(metaRepo, batchRepo, bucketRepo, repo.NewBatchBucketRepo(bucketRepo), metaRepo)
 	raftWrapper := raftimpl.NewRaft(util.ServerAddress(cfg.Port), cfg.Cluster, fsm)
 	pool.RaftWrapper = raftWrapper
 	// init services
 	bucketServ := service.NewBucketService(bucketRepo, raftWrapper)
 	metaService := service.NewMetadataService(
 		metaRepo,
-		repo.NewBatchRepo(pool.Storage),
+		batchRepo,
 		repo.NewHashIndexRepo(pool.Storage),
 		raftWrapper,
 	)
diff --git a/src/metaserver/internal/usecase/db/storage.go b/src/metaserver/internal/usecase/db/storage.go
index 6bddebe..72d3814 100644
--- a/src/metaserver/internal/usecase/db/storage.go
+++ b/src/metaserver/internal/usecase/db/storage.go
@@ -24,6 +24,7 @@ type Storage struct {
 	originalPath string
 	current      atomic.Value
 	rdOnly       atomic.Value
+	onReplaced   []func()
 }
 
 func NewStorage() *Storage {
@@ -32,6 +33,11 @@ func NewStorage() *Storage {
 	return &Storage{rdOnly: at}
 }
 
+// OnReplaced registers a func called each time the whole db has been replaced
+func (s *Storage) OnReplaced(fn func()) {
+	s.onReplaced = append(s.onReplaced, fn)
+}
+
 func (s *Storage) DB() *bolt.DB {
 	return s.current.Load().(*bolt.DB)
 }
@@ -133,6 +139,9 @@ func (s *Storage) Replace(replacePath string) (err error) {
 	old := s.DB()
 	// change current db to new one
 	s.current.Store(newDB)
+	for _, fn := range s.onReplaced {
+		fn()
+	}
 	// close and remove old db file
 	go func() {
 		defer graceful.Recover()
diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 2f14491..0c28f48 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -52,10 +52,12 @@ func (b *BucketCrud) GetBytes(name string, bt *[]byte) usecase.TxFunc {
 		if err != nil {
 			return err
 		}
-		*bt = root.Get(util.StrToBytes(name))
-		if *bt == nil {
+		v := root.Get(util.StrToBytes(name))
+		if v == nil {
 			return usecase.ErrNotFound
 		}
+		// values are only valid during the transaction
+		*bt = append([]byte{}, v...)
 		return nil
 	}
 }
diff --git a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
index 3bc917a..dbd3289 100644
--- a/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_bucket_repo.go
@@ -9,22 +9,24 @@ import (
 type BatchBucketRepo struct {
 	db    *db.Storage
 	logic *logic.BucketCrud
+	// shares cache with the repo so that batch writing never leaves stale cache
+	repo *BucketRepo
 }
 
-func NewBatchBucketRepo(db *db.Storage) *BatchBucketRepo {
-	return &BatchBucketRepo{db: db, logic: logic.NewBucketCrud()}
+func NewBatchBucketRepo(repo *BucketRepo) *BatchBucketRepo {
+	return &BatchBucketRepo{db: repo.db, logic: logic.NewBucketCrud(), repo: repo}
 }
 
 func (b *BatchBucketRepo) Create(bucket *msg.Bucket) (err error) {
-	return b.db.Batch(b.logic.Create(bucket))
+	return b.repo.write(bucket.Name, b.db.Batch, b.logic.Create(bucket))
 }
 
 func (b *BatchBucketRepo) Remove(name string) (err error) {
-	return b.db.Batch(b.logic.Delete(name))
+	return b.repo.write(name, b.db.Batch, b.logic.Delete(name))
 }
 
 func (b *BatchBucketRepo) Update(bucket *msg.Bucket) (err error) {
-	return b.db.Batch(b.logic.Update(bucket))
+	return b.repo.write(bucket.Name, b.db.Batch, b.logic.Update(bucket))
 }
 
 func (b *BatchBucketRepo) Sync() error {
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index 6fc235b..f48784f 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -10,10 +10,12 @@ import (
 
 type BatchMetaRepo struct {
 	Storage *db.Storage
+	// shares cache with the repo so that batch writing never leaves stale cache
+	repo *MetadataRepo
 }
 
-func NewBatchRepo(stroe *db.Storage) *BatchMetaRepo {
-	return &BatchMetaRepo{Storage: stroe}
+func NewBatchRepo(repo *MetadataRepo) *BatchMetaRepo {
+	return &BatchMetaRepo{Storage: repo.MainDB, repo: repo}
 }
 
 func (br *BatchMetaRepo) Sync() error {
@@ -28,44 +30,44 @@ func (br *BatchMetaRepo) AddVersion(name string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.AddVer(name, data))
+	return br.repo.write(name, br.Storage.Batch, logic.AddVer(name, data))
 }
 
 func (br *BatchMetaRepo) UpdateVersion(name string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.UpdateVer(name, data))
+	return br.repo.write(name, br.Storage.Batch, logic.UpdateVer(name, data), data.Sequence)
 }
 
 func (br *BatchMetaRepo) RemoveVersion(name string, ver uint64) error {
-	return br.Storage.Batch(logic.RemoveVer(name, ver))
+	return br.repo.write(name, br.Storage.Batch, logic.RemoveVer(name, ver), ver)
 }
 
 func (br *BatchMetaRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.AddMeta(id, data))
+	return br.repo.write(id, br.Storage.Batch, logic.AddMeta(id, data))
 }
 
 func (br *BatchMetaRepo) UpdateMetadata(name string, data *msg.Metadata) error {
-	return br.Storage.Batch(logic.UpdateMeta(name, data))
+	return br.repo.write(name, br.Storage.Batch, logic.UpdateMeta(name, data))
 }
 
 func (br *BatchMetaRepo) RemoveMetadata(name string) error {
-	return br.Storage.Batch(logic.RemoveMeta(name))
+	return br.repo.writeAll(name, br.Storage.Batch, logic.RemoveMeta(name))
 }
 
 func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	return br.Storage.Batch(logic.AddVerWithSequence(id, data))
+	return br.repo.write(id, br.Storage.Batch, logic.AddVerWithSequence(id, data), data.Sequence)
 }
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
-	return br.Storage.Batch(func(tx *bolt.Tx) error {
+	return br.repo.writeAll(id, br.Storage.Batch, func(tx *bolt.Tx) error {
 		// delete bucket
 		if err := logic.RemoveVersionBucket(tx, id); err != nil {
 			return err
diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index 22a8b3b..0ffbb89 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -1,7 +1,6 @@
 package repo
 
 import (
-	"common/graceful"
 	"common/proto/msg"
 	"common/util"
 	"errors"
@@ -14,10 +13,20 @@ type BucketRepo struct {
 	db    *db.Storage
 	logic *logic.BucketCrud
 	cache usecase.BucketRepo
+	guard *CacheGuard
 }
 
 func NewBucketRepo(db *db.Storage, cache usecase.BucketRepo) *BucketRepo {
-	return &BucketRepo{db: db, logic: logic.NewBucketCrud(), cache: cache}
+	res := &BucketRepo{db: db, logic: logic.NewBucketCrud(), cache: cache, guard: NewCacheGuard()}
+	db.OnReplaced(res.guard.Invalidate)
+	return res
+}
+
+// write runs a transaction on a bucket, dropping what is cached of it
+func (b *BucketRepo) write(name string, tx func(usecase.TxFunc) error, fn usecase.TxFunc) error {
+	return b.guard.Write(name, func() {
+		util.LogErrWithPre("bucket cache", b.cache.Remove(name))
+	}, func() error { return tx(fn) })
 }
 
 func (b *BucketRepo) Foreach(fn func(k []byte, v []byte) error) error {
@@ -29,50 +38,26 @@ func (b *BucketRepo) Get(name string) (res *msg.Bucket, err error) {
 		return data, nil
 	}
 	res = new(msg.Bucket)
+	done := b.guard.Begin(name)
 	err = b.db.View(b.logic.Get(name, res))
-	go func() {
-		defer graceful.Recover()
-		if err == nil {
+	if err == nil {
+		done(func() {
 			util.LogErrWithPre("bucket cache", b.cache.Create(res))
-		}
-	}()
+		})
+	}
 	return
 }
 
 func (b *BucketRepo) Create(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Create(bucket))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Create(bucket))
+	return b.write(bucket.Name, b.db.Update, b.logic.Create(bucket))
 }
 
 func (b *BucketRepo) Remove(name string) (err error) {
-	defer func() {
-		go func() {
-			defer graceful.Recover()
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Remove(name))
-			}
-		}()
-	}()
-	return b.db.Update(b.logic.Delete(name))
+	return b.write(name, b.db.Update, b.logic.Delete(name))
 }
 
 func (b *BucketRepo) Update(bucket *msg.Bucket) (err error) {
-	defer func() {
-		go func() {
-			if err == nil {
-				util.LogErrWithPre("bucket cache", b.cache.Update(bucket))
-			}
-		}()
-	}()
-
-	return b.db.Update(b.logic.Update(bucket))
+	return b.write(bucket.Name, b.db.Update, b.logic.Update(bucket))
 }
 
 func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
@@ -83,12 +68,6 @@ func (b *BucketRepo) List(prefix string, size int) ([]*msg.Bucket, int, error) {
 	if errors.Is(err, usecase.ErrNotFound) {
 		err = nil
 	}
-	go func() {
-		defer graceful.Recover()
-		for _, item := range list {
-			util.LogErrWithPre("bucket cache", b.cache.Create(item))
-		}
-	}()
 	return list, total, err
 }
 
diff --git a/src/metaserver/internal/usecase/repo/cache_guard.go b/src/metaserver/internal/usecase/repo/cache_guard.go
new file mode 100644
index 0000000..05d2b99
--- /dev/null
+++ b/src/metaserver/internal/usecase/repo/cache_guard.go
@@ -0,0 +1,77 @@
+package repo
+
+import (
+	"hash/fnv"
+	"sync"
+)
+
+const guardStripes = 256
+
+// CacheGuard keeps a cache coherent with the database behind it: entries of a
+// record are dropped before the record is written, and a value that was read
+// while the record was being written never gets into the cache.
+type CacheGuard struct {
+	stripes [guardStripes]guardStripe
+}
+
+type guardStripe struct {
+	writer  sync.Mutex
+	mu      sync.Mutex
+	writing bool
+	gen     uint64
+}
+
+func NewCacheGuard() *CacheGuard {
+	return &CacheGuard{}
+}
+
+func (g *CacheGuard) stripe(id string) *guardStripe {
+	h := fnv.New32a()
+	_, _ = h.Write([]byte(id))
+	return &g.stripes[h.Sum32()%guardStripes]
+}
+
+// Write drops the cached entries of id and runs the update
+func (g *CacheGuard) Write(id string, drop func(), update func() error) error {
+	s := g.stripe(id)
+	s.writer.Lock()
+	defer s.writer.Unlock()
+	s.mark(true, drop)
+	defer s.mark(false, nil)
+	return update()
+}
+
+func (s *guardStripe) mark(writing bool, drop func()) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.writing = writing
+	s.gen++
+	if drop != nil {
+		drop()
+	}
+}
+
+// Begin must be called before reading id from database. The returned func runs
+// fill only if id has not been written since then.
+func (g *CacheGuard) Begin(id string) func(fill func()) {
+	s := g.stripe(id)
+	s.mu.Lock()
+	gen, writing := s.gen, s.writing
+	s.mu.Unlock()
+	return func(fill func()) {
+		s.mu.Lock()
+		defer s.mu.Unlock()
+		if !writing && s.gen == gen {
+			fill()
+		}
+	}
+}
+
+// Invalidate refuses the values of all readings in progress
+func (g *CacheGuard) Invalidate() {
+	for i := range g.stripes {
+		g.stripes[i].mu.Lock()
+		g.stripes[i].gen++
+		g.stripes[i].mu.Unlock()
+	}
+}
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 2a23d7d..c137562 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -3,7 +3,6 @@ package repo
 import (
 	"bytes"
 	"common/cst"
-	"common/graceful"
 	"common/logs"
 	"common/proto/msg"
 	"common/util"
@@ -23,55 +22,62 @@ import (
 type MetadataRepo struct {
 	MainDB *db.Storage
 	Cache  usecase.IMetaCache
+	guard  *CacheGuard
 }
 
 func NewMetadataRepo(db *db.Storage, c usecase.IMetaCache) *MetadataRepo {
-	return &MetadataRepo{MainDB: db, Cache: c}
+	res := &MetadataRepo{MainDB: db, Cache: c, guard: NewCacheGuard()}
+	db.OnReplaced(res.guard.Invalidate)
+	return res
+}
+
+// write runs a transaction on record id, dropping what is cached of this record
+func (m *MetadataRepo) write(id string, tx func(usecase.TxFunc) error, fn usecase.TxFunc, versions ...uint64) error {
+	return m.guard.Write(id, func() {
+		util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(id))
+		for _, ver := range versions {
+			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(id, ver))
+		}
+	}, func() error { return tx(fn) })
+}
+
+// writeAll is same as write, but dropping all cached versions of this record
+func (m *MetadataRepo) writeAll(id string, tx func(usecase.TxFunc) error, fn usecase.TxFunc) error {
+	return m.guard.Write(id, func() {
+		util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(id))
+		for i, last := uint64(1), m.versionSequence(id); i <= last; i++ {
+			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(id, i))
+		}
+	}, func() error { return tx(fn) })
+}
+
+// versionSequence the maximum version number that has ever been used
+func (m *MetadataRepo) versionSequence(id string) (seq uint64) {
+	_ = m.MainDB.View(func(tx *bolt.Tx) error {
+		if buk := logic.GetVersionBucket(tx, id); buk != nil {
+			seq = buk.Sequence()
+		}
+		return nil
+	})
+	return
 }
 
 func (m *MetadataRepo) AddMetadata(id string, data *msg.Metadata) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	if err := m.MainDB.Update(logic.AddMeta(id, data)); err != nil {
-		return err
-	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddMetadata(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
-	return nil
+	return m.write(id, m.MainDB.Update, logic.AddMeta(id, data))
 }
 
 func (m *MetadataRepo) UpdateMetadata(name string, data *msg.Metadata) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	if err := m.MainDB.Update(logic.UpdateMeta(name, data)); err != nil {
-		return err
-	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateMetadata(name, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
-	return nil
+	return m.write(name, m.MainDB.Update, logic.UpdateMeta(name, data))
 }
 
 func (m *MetadataRepo) RemoveMetadata(name string) error {
-	lastVer := m.GetLastVersionNumber(name)
-	if err := m.MainDB.Update(logic.RemoveMeta(name)); err != nil {
-		return err
-	}
-	go func() {
-		defer graceful.Recover()
-		util.LogErrWithPre("metadata cache", m.Cache.RemoveMetadata(name))
-		for i := uint64(1); i <= lastVer; i++ {
-			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, i))
-		}
-	}()
-	return nil
+	return m.writeAll(name, m.MainDB.Update, logic.RemoveMeta(name))
 }
 
 func (m *MetadataRepo) GetMetadata(id string) (*msg.Metadata, error) {
@@ -79,13 +85,13 @@ func (m *MetadataRepo) GetMetadata(id string) (*msg.Metadata, error) {
 		return data, nil
 	}
 	data := &msg.Metadata{}
+	done := m.guard.Begin(id)
 	if err := m.MainDB.View(logic.GetMeta(id, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
+	done(func() {
 		util.LogErrWithPre("add metadata cache", m.Cache.AddMetadata(id, data))
-	}()
+	})
 	return data, nil
 }
 
@@ -99,15 +105,7 @@ func (m *MetadataRepo) AddVersion(id string, data *msg.Version) error {
 	if data.UniqueId == "" {
 		return errors.New("version doesn't contains UniqueId value")
 	}
-	if err := m.MainDB.Update(logic.AddVer(id, data)); err != nil {
-		return err
-	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
-	return nil
+	return m.write(id, m.MainDB.Update, logic.AddVer(id, data))
 }
 
 func (m *MetadataRepo) AddVersionFromRaft(id string, data *msg.Version) error {
@@ -120,64 +118,29 @@ func (m *MetadataRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if data.UniqueId == "" {
 		return errors.New("version doesn't contains UniqueId value")
 	}
-	if err := m.MainDB.Update(logic.AddVerWithSequence(id, data)); err != nil {
-		return err
-	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.AddVersionFromRaft(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
-	return nil
+	return m.write(id, m.MainDB.Update, logic.AddVerWithSequence(id, data), data.Sequence)
 }
 
 func (m *MetadataRepo) UpdateVersion(id string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
 	}
-	if err := m.MainDB.Update(logic.UpdateVer(id, data)); err != nil {
-		return err
-	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.UpdateVersion(id, data)
-		util.LogErrWithPre("metadata cache", err)
-	}()
-	return nil
+	return m.write(id, m.MainDB.Update, logic.UpdateVer(id, data), data.Sequence)
 }
 
 func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
-	if err := m.MainDB.Update(logic.RemoveVer(name, ver)); err != nil {
-		return err
-	}
-	go func() {
-		defer graceful.Recover()
-		err := m.Cache.RemoveVersion(name, ver)
-		util.LogErrWithPre("metadata cache", err)
-	}()
-	return nil
+	return m.write(name, m.MainDB.Update, logic.RemoveVer(name, ver), ver)
 }
 
 func (m *MetadataRepo) RemoveAllVersion(name string) error {
-	last := m.GetLastVersionNumber(name)
-	if err := m.MainDB.Update(func(tx *bolt.Tx) error {
+	return m.writeAll(name, m.MainDB.Update, func(tx *bolt.Tx) error {
 		// delete bucket
 		if err := logic.RemoveVersionBucket(tx, name); err != nil {
 			return err
 		}
 		// create an empty bucket
 		return logic.CreateVersionBucket(tx, name)
-	}); err != nil {
-		return err
-	}
-	go func() {
-		defer graceful.Recover()
-		for i := uint64(0); i <= last; i++ {
-			err := m.Cache.RemoveVersion(name, i)
-			util.LogErrWithPre("remove version cache", err)
-		}
-	}()
-	return nil
+	})
 }
 
 func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
@@ -227,13 +190,13 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 		return data, nil
 	}
 	data := &msg.Version{}
+	done := m.guard.Begin(name)
 	if err := m.MainDB.View(logic.GetVer(name, ver, data)); err != nil {
 		return nil, err
 	}
-	go func() {
-		defer graceful.Recover()
+	done(func() {
 		util.LogErrWithPre("add metadata cache", m.Cache.AddVersion(name, data))
-	}()
+	})
 	return data, nil
 }
 
-- 
2.43.0


From a8a7992452e15793948d34cb04f0b851a0a72d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 02/64] fix: separate cache keys of versions from those of
 metadata

---
 .../internal/usecase/repo/metadata_cache_repo.go         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 271d930..420305c 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -31,7 +31,8 @@ func (pe *partlyErr) Error() string {
 }
 
 const (
-	MetaCachePrefix = "metadata_"
+	MetaCachePrefix    = "metadata_"
+	VersionCachePrefix = "version_"
 )
 
 type MetadataCacheRepo struct {
@@ -58,7 +59,7 @@ func (m *MetadataCacheRepo) GetMetadata(s string) (*msg.Metadata, error) {
 }
 
 func (m *MetadataCacheRepo) GetVersion(s string, u uint64) (*msg.Version, error) {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, u)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, u)
 	if bt, ok := m.cache.HasGet(key); ok {
 		var en msg.Version
 		if err := util.DecodeMsgp(&en, bt); err != nil {
@@ -94,7 +95,7 @@ func (m *MetadataCacheRepo) AddMetadata(id string, metadata *msg.Metadata) error
 }
 
 func (m *MetadataCacheRepo) AddVersion(s string, version *msg.Version) error {
-	key := fmt.Sprint(MetaCachePrefix, s, logic.Sep, version.Sequence)
+	key := fmt.Sprint(VersionCachePrefix, s, logic.Sep, version.Sequence)
 	bt, err := util.EncodeMsgp(version)
 	if err != nil {
 		return err
@@ -117,7 +118,7 @@ func (m *MetadataCacheRepo) RemoveMetadata(s string) error {
 }
 
 func (m *MetadataCacheRepo) RemoveVersion(s string, u uint64) error {
-	m.cache.Delete(fmt.Sprint(MetaCachePrefix, s, logic.Sep, u))
+	m.cache.Delete(fmt.Sprint(VersionCachePrefix, s, logic.Sep, u))
 	return nil
 }
 
-- 
2.43.0


From 3dcfe2b7c114acfab19998dd4459eaa1ab7d0c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 03/64] fix: order versions by number instead of by key and
 page them exactly

---
 go.work.sum                                   | 11 +++
 .../internal/usecase/logic/metadata_logic.go  | 37 +++++++---
 .../internal/usecase/repo/metadata_repo.go    | 67 ++++++-------------
 .../usecase/service/metadata_service.go       | 11 ++-
 4 files changed, 67 insertions(+), 59 deletions(-)

diff --git a/go.work.sum b/go.work.sum
index 71a3190..72c94ba 100644
--- a/go.work.sum
+++ b/go.work.sum
@@ -275,6 +275,7 @@ go.uber.org/multierr v1.10.0/go.mod h1:20+QtiLqy0Nd6FdQB9TLXag12DsQkrbs3htMFfDN8
 golang.org/x/crypto v0.0.0-20210921155107-089bfa567519/go.mod h1:GvvjBRRGRdwPK5ydBHafDWAxML/pGHZbMvKqRZ5+Abc=
 golang.org/x/crypto v0.7.0/go.mod h1:pYwdfH91IfpZVANVyUOhSIPZaFoJGxTFbZhFTx+dXZU=
 golang.org/x/crypto v0.14.0/go.mod h1:MVFd36DqK4CsrnJYDkBA3VC4m2GkXAM0PvzMCn4JQf4=
+golang.org/x/crypto v0.17.0/go.mod h1:gCAAfMLgwOJRpTjQ2zCCt2OcSfYMTeZVSRtQlPC7Nq4=
 golang.org/x/exp v0.0.0-20190121172915-509febef88a4 h1:c2HOrn5iMezYjSlGPncknSEr/8x5LELb/ilJbXi9DEA=
 golang.org/x/lint v0.0.0-20210508222113-6edffad5e616 h1:VLliZ0d+/avPrXXH+OakdXhpJuEoBZuwh1m2j7U6Iug=
 golang.org/x/mod v0.4.2 h1:Gz96sIWK3OalVv/I/qNygP42zyoKp3xptRVCWRFEBvo=
@@ -283,6 +284,7 @@ golang.org/x/mod v0.6.0-dev.0.20220419223038-86c51ed26bb4/go.mod h1:jJ57K6gSWd91
 golang.org/x/mod v0.8.0 h1:LUYupSeNrTNCGzR/hVBk2NHZO4hXcVaW1k4Qx7rjPx8=
 golang.org/x/mod v0.8.0/go.mod h1:iBbtSCu2XBx23ZKBPSOrRkjjQPZFPuis4dIYUhu/chs=
 golang.org/x/mod v0.9.0/go.mod h1:iBbtSCu2XBx23ZKBPSOrRkjjQPZFPuis4dIYUhu/chs=
+golang.org/x/mod v0.13.0/go.mod h1:hTbmBsO62+eylJbnUtE2MGJUyE7QWk4xUqPFrRgJ+7c=
 golang.org/x/net v0.0.0-20190603091049-60506f45cf65/go.mod h1:HSz+uSET+XFnRR8LxR5pz3Of3rY3CfYBVs4xY44aLks=
 golang.org/x/net v0.0.0-20190628185345-da137c7871d7/go.mod h1:z5CRVTTTmAJ677TzLLGU+0bjPO0LkuOLi4/5GtJWs/s=
 golang.org/x/net v0.0.0-20200625001655-4c5254603344/go.mod h1:/O7V0waA8r7cgGh81Ro3o1hOxt32SMVPicZroKQ2sZA=
@@ -291,8 +293,10 @@ golang.org/x/net v0.0.0-20220722155237-a158d28d115b/go.mod h1:XRhObCWvk6IyKnWLug
 golang.org/x/net v0.8.0/go.mod h1:QVkue5JL9kW//ek3r6jTKnTFis1tRmNAW2P1shuFdJc=
 golang.org/x/net v0.10.0/go.mod h1:0qNGK6F8kojg2nk9dLZ2mShWaEBan6FAoqfSigmmuDg=
 golang.org/x/net v0.16.0/go.mod h1:NxSsAGuq816PNPmqtQdLE42eU2Fs7NoRIZrHJAlaCOE=
+golang.org/x/net v0.17.0/go.mod h1:NxSsAGuq816PNPmqtQdLE42eU2Fs7NoRIZrHJAlaCOE=
 golang.org/x/net v0.18.0/go.mod h1:/czyP5RqHAH4odGYxBJ1qz0+CE5WZ+2j1YgoEo8F2jQ=
 golang.org/x/net v0.19.0/go.mod h1:CfAk/cbD4CthTvqiEl8NpboMuiuOYsAr/7NOjZJtv1U=
+golang.org/x/net v0.21.0/go.mod h1:bIjVDfnllIU7BJ2DNgfnXvpSvtn8VRwhlsaeUTyUS44=
 golang.org/x/oauth2 v0.0.0-20190226205417-e64efc72b421/go.mod h1:gOpvHmFTYa4IltrdGE7lF6nIHvwfUNPOp7c8zoXwtLw=
 golang.org/x/oauth2 v0.0.0-20200107190931-bf48bf16ab8d h1:TzXSXBo42m9gQenoE3b9BGiEpg5IG2JkU5FkPIawgtw=
 golang.org/x/oauth2 v0.13.0/go.mod h1:/JMhi4ZRXAf4HG9LiNmxvk+45+96RUlVThiH8FzNBn0=
@@ -312,6 +316,7 @@ golang.org/x/sys v0.0.0-20200625212154-ddb9806d33ae/go.mod h1:h1NjWce9XRLGQEsW7w
 golang.org/x/sys v0.0.0-20210124154548-22da62e12c0c/go.mod h1:h1NjWce9XRLGQEsW7wpKNCjG9DtNlClVuFLEZdDNbEs=
 golang.org/x/sys v0.0.0-20210403161142-5e06dd20ab57/go.mod h1:h1NjWce9XRLGQEsW7wpKNCjG9DtNlClVuFLEZdDNbEs=
 golang.org/x/sys v0.0.0-20210603081109-ebe580a85c40/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
+golang.org/x/sys v0.0.0-20220520151302-bc2c85ada10a/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
 golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
 golang.org/x/sys v0.4.0/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
 golang.org/x/sys v0.13.0/go.mod h1:oPkhp1MJrh7nUepCBck5+mAzfO9JrbApNNgaTdGDITg=
@@ -324,6 +329,7 @@ golang.org/x/term v0.8.0 h1:n5xxQn2i3PC0yLAbjTpNT85q/Kgzcr2gIoX9OrJUols=
 golang.org/x/term v0.8.0/go.mod h1:xPskH00ivmX89bAKVGSKKtLOWNx2+17Eiy94tnKShWo=
 golang.org/x/term v0.13.0/go.mod h1:LTmsnFJwVN6bCy1rVCoS+qHT1HhALEFxKncY3WNNh4U=
 golang.org/x/term v0.16.0/go.mod h1:yn7UURbUtPyrVJPGPq404EukNFxcm/foM+bV/bfcDsY=
+golang.org/x/term v0.18.0/go.mod h1:ILwASektA3OnRv7amZ1xhE/KTR+u50pbXfZ03+6Nx58=
 golang.org/x/text v0.3.8/go.mod h1:E6s5w1FMmriuDzIBO73fBruAKo1PCIq6d2Q6DHfQ8WQ=
 golang.org/x/text v0.8.0/go.mod h1:e1OnstbJyHTd6l/uOt8jFFHp6TRDWZR/bV3emEE/zU8=
 golang.org/x/text v0.13.0/go.mod h1:TvPlkZtksWOMsz7fbANvkp4WM8x/WCo/om8BMLbz+aE=
@@ -334,6 +340,7 @@ golang.org/x/tools v0.1.12/go.mod h1:hNGJHUnrk76NpqgfD5Aqm5Crs+Hm0VOH/i9J2+nxYbc
 golang.org/x/tools v0.6.0 h1:BOw41kyTf3PuCW1pVQf8+Cyg8pMlkYB1oo9iJ6D/lKM=
 golang.org/x/tools v0.6.0/go.mod h1:Xwgl3UAJ/d3gWutnCtw505GrjyAbvKui8lOU390QaIU=
 golang.org/x/tools v0.13.0/go.mod h1:HvlwmtVNQAhOuCjW7xxvovg8wbNq7LwfXh/k7wXUl58=
+golang.org/x/tools v0.14.0/go.mod h1:uYBEerGOWcJyEORxN+Ek8+TT266gXkNlHdJBwexUsBg=
 golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1 h1:go1bK/D/BFZV2I8cIQd1NKEZ+0owSTG1fDTci4IqFcE=
 golang.org/x/xerrors v0.0.0-20231012003039-104605ab7028/go.mod h1:NDW/Ps6MPRej6fsCIbMTohpP40sJ/P/vI1MoTEGwX90=
 google.golang.org/api v0.149.0/go.mod h1:Mwn1B7JTXrzXtnvmzQE2BD6bYZQ8DShKZDZbeN9I7qI=
@@ -341,6 +348,7 @@ google.golang.org/api v0.155.0/go.mod h1:GI5qK5f40kCpHfPn6+YzGAByIKWv8ujFnmoWm7I
 google.golang.org/appengine v1.4.0 h1:/wp5JvzpHIxhs/dumFmF7BXTf3Z+dd4uXta4kVyO508=
 google.golang.org/appengine v1.6.7/go.mod h1:8WjMMxjGQR8xUklV/ARdw2HLXBOI7O7uCIDZVag1xfc=
 google.golang.org/appengine v1.6.8/go.mod h1:1jJ3jBArFh5pcgW8gCtRJnepW8FzD1V44FJffLiz/Ds=
+google.golang.org/genproto v0.0.0-20230410155749-daa745c078e1/go.mod h1:nKE/iIaLqn2bQwXBg8f1g2Ylh6r5MN5CmZvuzZCgsCU=
 google.golang.org/genproto v0.0.0-20230822172742-b8732ec3820d/go.mod h1:yZTlhN0tQnXo3h00fuXNCxJdLdIdnVFVBaRJ5LWBbw4=
 google.golang.org/genproto v0.0.0-20231016165738-49dd2c1f3d0b/go.mod h1:CgAqfJo+Xmu0GwA0411Ht3OU3OntXwsGmrmjI8ioGXI=
 google.golang.org/genproto v0.0.0-20231106174013-bbf56f31fb17/go.mod h1:J7XzRzVy1+IPwWHZUzoD0IccYZIrXILAQpc+Qy9CMhY=
@@ -353,14 +361,17 @@ google.golang.org/genproto/googleapis/api v0.0.0-20231016165738-49dd2c1f3d0b/go.
 google.golang.org/genproto/googleapis/api v0.0.0-20231106174013-bbf56f31fb17/go.mod h1:0xJLfVdJqpAPl8tDg1ujOCGzx6LFLttXT5NhllGOXY4=
 google.golang.org/genproto/googleapis/api v0.0.0-20231211222908-989df2bf70f3/go.mod h1:k2dtGpRrbsSyKcNPKKI5sstZkrNCZwpU/ns96JoHbGg=
 google.golang.org/genproto/googleapis/api v0.0.0-20240102182953-50ed04b92917/go.mod h1:CmlNWB9lSezaYELKS5Ym1r44VrrbPUa7JTvw+6MbpJ0=
+google.golang.org/genproto/googleapis/api v0.0.0-20240116215550-a9fa1716bcac/go.mod h1:B5xPO//w8qmBDjGReYLpR6UJPnkldGkCSMoH/2vxJeg=
 google.golang.org/genproto/googleapis/bytestream v0.0.0-20231212172506-995d672761c0/go.mod h1:guYXGPwC6jwxgWKW5Y405fKWOFNwlvUlUnzyp9i0uqo=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20230822172742-b8732ec3820d/go.mod h1:+Bk1OCOj40wS2hwAMA+aCW9ypzm63QTBBHp6lQ3p+9M=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20231016165738-49dd2c1f3d0b/go.mod h1:swOH3j0KzcDDgGUWr+SNpyTen5YrXjS3eyPzFYKc6lc=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20231106174013-bbf56f31fb17/go.mod h1:oQ5rr10WTTMvP4A36n8JpR1OrO1BEiV4f78CneXZxkA=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20231212172506-995d672761c0/go.mod h1:FUoWkonphQm3RhTS+kOEhF8h0iDpm4tdXolVCeZ9KKA=
 google.golang.org/genproto/googleapis/rpc v0.0.0-20240102182953-50ed04b92917/go.mod h1:xtjpI3tXFPP051KaWnhvxkiubL/6dJ18vLVf7q2pTOU=
+google.golang.org/genproto/googleapis/rpc v0.0.0-20240116215550-a9fa1716bcac/go.mod h1:daQN87bsDqDoe316QbbvX60nMoJQa4r6Ds0ZuoAe5yA=
 google.golang.org/grpc v1.33.2/go.mod h1:JMHMWHQWaTccqQQlmk3MJZS+GWXOdAesneDmEnv2fbc=
 google.golang.org/grpc v1.37.0/go.mod h1:NREThFqKR1f3iQ6oBuvc5LadQuXVGo9rkm5ZGrQdJfM=
+google.golang.org/grpc v1.56.3/go.mod h1:I9bI3vqKfayGqPUAwGdOSu7kt6oIJLixfffKrpXqQ9s=
 google.golang.org/grpc v1.59.0/go.mod h1:aUPDwccQo6OTjy7Hct4AfBPD1GptF4fyUjIkQ9YtF98=
 google.golang.org/grpc v1.60.1/go.mod h1:OlCHIeLYqSSsLi6i49B5QGdzaMZK9+M7LXN2FKz4eGM=
 google.golang.org/grpc/cmd/protoc-gen-go-grpc v1.1.0/go.mod h1:6Kw0yEErY5E/yWrBtf03jp27GLLJujG4z/JK95pnjjw=
diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index bdeec02..e24413e 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -1,7 +1,6 @@
 package logic
 
 import (
-	"bytes"
 	"common/logs"
 	"common/proto/msg"
 	"common/util"
@@ -109,19 +108,35 @@ func GetExtra(id string, extra *msg.Extra) TxFunc {
 			return ErrNotFound
 		}
 		extra.Total = b.Stats().KeyN
-		cur := b.Cursor()
-		// first key
-		k, _ := cur.First()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.FirstVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
+		extra.FirstVersion = int(FirstVersion(b, id))
+		extra.LastVersion = int(LastVersion(b, id))
+		return nil
+	}
+}
+
+// FirstVersion the smallest version number of a version bucket, 0 if it is empty.
+// Keys are sorted as strings by bolt, so a cursor is not in order of version numbers.
+func FirstVersion(b *bolt.Bucket, name string) uint64 {
+	for i, last := uint64(1), b.Sequence(); i <= last; i++ {
+		if b.Get(VersionKey(name, i)) != nil {
+			return i
 		}
-		// last key
-		k, _ = cur.Last()
-		if idx := bytes.LastIndexByte(k, Sep[0]); idx > 0 {
-			extra.LastVersion = util.ToInt(util.BytesToStr(k[idx+1:]))
+	}
+	return 0
+}
+
+// LastVersion the largest version number of a version bucket, 0 if it is empty
+func LastVersion(b *bolt.Bucket, name string) uint64 {
+	for i := b.Sequence(); i > 0; i-- {
+		if b.Get(VersionKey(name, i)) != nil {
+			return i
 		}
-		return nil
 	}
+	return 0
+}
+
+func VersionKey(name string, ver uint64) []byte {
+	return util.StrToBytes(fmt.Sprint(name, Sep, ver))
 }
 
 func ExistsByUniqueId(tx *bolt.Tx, uniqueId string) error {
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index c137562..eefb469 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -7,7 +7,6 @@ import (
 	"common/proto/msg"
 	"common/util"
 	"errors"
-	"fmt"
 	"io"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
@@ -144,44 +143,24 @@ func (m *MetadataRepo) RemoveAllVersion(name string) error {
 }
 
 func (m *MetadataRepo) GetFirstVersionNumber(name string) uint64 {
-	var fst uint64 = 1
-	if err := m.MainDB.View(func(tx *bolt.Tx) error {
+	var fst uint64
+	_ = m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().First()
-			if k == nil || v == nil {
-				return usecase.ErrNotFound
-			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			fst = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			fst = logic.FirstVersion(buk, name)
 		}
 		return nil
-	}); err != nil {
-		return 0
-	}
+	})
 	return fst
 }
 
 func (m *MetadataRepo) GetLastVersionNumber(name string) uint64 {
-	var max uint64 = 1
-	if err := m.MainDB.View(func(tx *bolt.Tx) error {
+	var max uint64
+	_ = m.MainDB.View(func(tx *bolt.Tx) error {
 		if buk := logic.GetVersionBucket(tx, name); buk != nil {
-			k, v := buk.Cursor().Last()
-			if k == nil || v == nil {
-				return usecase.ErrNotFound
-			}
-			idx := bytes.LastIndexByte(k, logic.Sep[0])
-			if idx < 0 {
-				return usecase.ErrNotFound
-			}
-			max = util.ToUint64(util.BytesToStr(k[idx+1:]))
+			max = logic.LastVersion(buk, name)
 		}
 		return nil
-	}); err != nil {
-		return 0
-	}
+	})
 	return max
 }
 
@@ -200,29 +179,27 @@ func (m *MetadataRepo) GetVersion(name string, ver uint64) (*msg.Version, error)
 	return data, nil
 }
 
+// ListVersions list the start-th to the end-th version, in order of version numbers
 func (m *MetadataRepo) ListVersions(name string, start int, end int) (lst []*msg.Version, total int, err error) {
-	size := end - start + 1
-	lst, _, err = m.Cache.ListVersions(name, start, end)
-	if util.InstanceOf[PartlyMatchedErr](err) {
-		start = err.(PartlyMatchedErr).Last()
-	} else if err != nil {
-		return
-	}
 	err = m.MainDB.View(func(tx *bolt.Tx) error {
 		buk := logic.GetVersionBucket(tx, name)
 		if buk == nil {
 			return usecase.ErrNotFound
 		}
-		c := buk.Cursor()
-
-		min := util.StrToBytes(fmt.Sprint(name, logic.Sep, start))
-
-		for k, v := c.Seek(min); k != nil && len(lst) < size; k, v = c.Next() {
-			data := &msg.Version{}
-			if err := util.DecodeMsgp(data, v); err != nil {
-				return err
+		lst = make([]*msg.Version, 0)
+		for i, pos := uint64(1), 1; i <= buk.Sequence() && pos <= end; i++ {
+			v := buk.Get(logic.VersionKey(name, i))
+			if v == nil {
+				continue
+			}
+			if pos >= start {
+				data := &msg.Version{}
+				if err := util.DecodeMsgp(data, v); err != nil {
+					return err
+				}
+				lst = append(lst, data)
 			}
-			lst = append(lst, data)
+			pos++
 		}
 		// record total
 		total = buk.Stats().KeyN
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index 3435f96..b9f74c8 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -160,8 +160,13 @@ func (m *MetadataService) GetMetadata(id string, version int, withExtra bool) (*
 }
 
 func (m *MetadataService) GetVersion(name string, ver int) (*msg.Version, error) {
-	if ver <= 0 {
-		return m.repo.GetVersion(name, m.repo.GetLastVersionNumber(name))
+	for ver <= 0 {
+		last := m.repo.GetLastVersionNumber(name)
+		data, err := m.repo.GetVersion(name, last)
+		// try again if it is no longer the last one
+		if m.repo.GetLastVersionNumber(name) == last {
+			return data, err
+		}
 	}
 	return m.repo.GetVersion(name, uint64(ver))
 }
@@ -172,7 +177,7 @@ func (m *MetadataService) ListVersions(name string, page int, size int) ([]*msg.
 	}
 	// start at 1
 	start := (page-1)*size + 1
-	return m.repo.ListVersions(name, start, start+size)
+	return m.repo.ListVersions(name, start, start+size-1)
 }
 
 func (m *MetadataService) ListMetadata(prefix string, size int) ([]*msg.Metadata, int, error) {
-- 
2.43.0


From 20a8b32b1a1f946948eda274fe29ab879d4edcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 04/64] fix: copy bolt keys that outlive their transaction

---
 src/metaserver/internal/usecase/logic/hash_index_logic.go      | 2 +-
 src/metaserver/internal/usecase/logic/unique_id_index_logic.go | 2 +-
 src/metaserver/internal/usecase/service/hashslot_service.go    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/hash_index_logic.go b/src/metaserver/internal/usecase/logic/hash_index_logic.go
index 1e3bd31..f43f77e 100644
--- a/src/metaserver/internal/usecase/logic/hash_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/hash_index_logic.go
@@ -50,7 +50,7 @@ func (HashIndexLogic) GetIndex(hash string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := hashBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k)) // keys are only valid during the transaction
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
index 726a54c..56ceb1e 100644
--- a/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
+++ b/src/metaserver/internal/usecase/logic/unique_id_index_logic.go
@@ -50,7 +50,7 @@ func (UniqueIdIndex) GetIndex(uniqueId string, res *[]string) usecase.TxFunc {
 			return nil
 		}
 		err := uniqueIdBuk.ForEach(func(k, v []byte) error {
-			*res = append(*res, util.BytesToStr(k))
+			*res = append(*res, string(k)) // keys are only valid during the transaction
 			return nil
 		})
 		return err
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 9e39cd9..729052b 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -347,7 +347,7 @@ func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClie
 		if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
 			return nil
 		}
-		migKeys = append(migKeys, k)
+		migKeys = append(migKeys, append([]byte{}, k...)) // keys are only valid during the transaction
 		return nil
 	})
 	total := len(migKeys)
-- 
2.43.0


From fd95cbfd77fded1beb0141b01b5b9b848fa140a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 05/64] fix: keep hash and unique-id indexes consistent with
 versions

---
 src/metaserver/internal/usecase/interfaces.go |  2 +-
 .../internal/usecase/logic/metadata_logic.go  | 32 +++++++++---
 .../internal/usecase/repo/hash_index_repo.go  | 49 +++++++++++++++++--
 .../usecase/service/metadata_service.go       | 28 +++--------
 4 files changed, 78 insertions(+), 33 deletions(-)

diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 1922298..c1998e1 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -55,7 +55,7 @@ type (
 
 	IHashIndexRepo interface {
 		Remove(hash, key string) error
-		FindAll(hash string) ([]string, error)
+		FindAll(hash string) (versions []*msg.Version, missing []string, err error)
 		Sync() error
 	}
 
diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index e24413e..3e1cd56 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -174,7 +174,7 @@ func AddVerWithSequence(name string, data *msg.Version) TxFunc {
 				return err
 			}
 			keyStr := util.BytesToStr(key)
-			if err = NewUniqueIdIndex().AddIndex(data.Hash, keyStr)(tx); err != nil {
+			if err = NewUniqueIdIndex().AddIndex(data.UniqueId, keyStr)(tx); err != nil {
 				return err
 			}
 			return NewHashIndexLogic().AddIndex(data.Hash, keyStr)(tx)
@@ -223,12 +223,8 @@ func RemoveVer(name string, ver uint64) TxFunc {
 			return err
 		}
 		// remove index
-		keyStr := util.BytesToStr(key)
-		if err := NewHashIndexLogic().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
-			return fmt.Errorf("remove hash-index err: %w", err)
-		}
-		if err := NewUniqueIdIndex().RemoveIndex(data.Hash, keyStr)(tx); err != nil {
-			return fmt.Errorf("remove uniqueId-index err: %w", err)
+		if err := removeIndexes(tx, util.BytesToStr(key), &data); err != nil {
+			return err
 		}
 		return b.Delete(key)
 	}
@@ -303,9 +299,31 @@ func CreateVersionBucket(tx *bolt.Tx, name string) error {
 }
 
 func RemoveVersionBucket(tx *bolt.Tx, name string) error {
+	if b := GetVersionBucket(tx, name); b != nil {
+		// versions are no longer reachable by indexes
+		if err := b.ForEach(func(k, v []byte) error {
+			var data msg.Version
+			if err := util.DecodeMsgp(&data, v); err != nil {
+				return err
+			}
+			return removeIndexes(tx, string(k), &data)
+		}); err != nil {
+			return err
+		}
+	}
 	return getVersionRoot(tx).DeleteBucket(util.StrToBytes(name))
 }
 
+func removeIndexes(tx *bolt.Tx, key string, data *msg.Version) error {
+	if err := NewHashIndexLogic().RemoveIndex(data.Hash, key)(tx); err != nil {
+		return fmt.Errorf("remove hash-index err: %w", err)
+	}
+	if err := NewUniqueIdIndex().RemoveIndex(data.UniqueId, key)(tx); err != nil {
+		return fmt.Errorf("remove uniqueId-index err: %w", err)
+	}
+	return nil
+}
+
 // getVersionRoot get or create version root bucket
 func getVersionRoot(tx *bolt.Tx) *bolt.Bucket {
 	if tx.Writable() {
diff --git a/src/metaserver/internal/usecase/repo/hash_index_repo.go b/src/metaserver/internal/usecase/repo/hash_index_repo.go
index 1eb340e..6de276a 100644
--- a/src/metaserver/internal/usecase/repo/hash_index_repo.go
+++ b/src/metaserver/internal/usecase/repo/hash_index_repo.go
@@ -1,8 +1,15 @@
 package repo
 
 import (
+	"common/proto/msg"
+	"common/util"
+	"errors"
+	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/db"
 	"metaserver/internal/usecase/logic"
+	"strings"
+
+	bolt "go.etcd.io/bbolt"
 )
 
 type HashIndexRepo struct {
@@ -13,15 +20,51 @@ func NewHashIndexRepo(s *db.Storage) *HashIndexRepo {
 	return &HashIndexRepo{Storage: s}
 }
 
+// Remove removes the index if it refers to nothing
 func (h *HashIndexRepo) Remove(hash, key string) error {
-	return h.Storage.Batch(logic.NewHashIndexLogic().RemoveIndex(hash, key))
+	return h.Storage.Batch(func(tx *bolt.Tx) error {
+		if _, err := h.getVersion(tx, hash, key); !errors.Is(err, usecase.ErrNotFound) {
+			return err
+		}
+		return logic.NewHashIndexLogic().RemoveIndex(hash, key)(tx)
+	})
 }
 
-func (h *HashIndexRepo) FindAll(hash string) (keys []string, err error) {
-	err = h.Storage.View(logic.NewHashIndexLogic().GetIndex(hash, &keys))
+// FindAll find all versions of the hash, and those keys referring to nothing
+func (h *HashIndexRepo) FindAll(hash string) (versions []*msg.Version, missing []string, err error) {
+	err = h.Storage.View(func(tx *bolt.Tx) error {
+		var keys []string
+		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
+			return err
+		}
+		versions = make([]*msg.Version, 0, len(keys))
+		for _, key := range keys {
+			ver, err := h.getVersion(tx, hash, key)
+			if errors.Is(err, usecase.ErrNotFound) {
+				missing = append(missing, key)
+				continue
+			} else if err != nil {
+				return err
+			}
+			versions = append(versions, ver)
+		}
+		return nil
+	})
 	return
 }
 
+func (h *HashIndexRepo) getVersion(tx *bolt.Tx, hash, key string) (*msg.Version, error) {
+	idx := strings.LastIndexByte(key, '.')
+	var ver msg.Version
+	if err := logic.GetVer(key[:idx], util.ToUint64(key[idx+1:]), &ver)(tx); err != nil {
+		return nil, err
+	}
+	if ver.Hash != hash {
+		return nil, usecase.ErrNotFound
+	}
+	return &ver, nil
+}
+
 func (h *HashIndexRepo) Sync() error {
 	return h.Storage.DB().Sync()
 }
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index b9f74c8..b0dfb32 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -8,7 +8,6 @@ import (
 	"metaserver/internal/entity"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/raftimpl"
-	"strings"
 	"time"
 )
 
@@ -208,29 +207,14 @@ func (m *MetadataService) GetMetadataBytes(name string) ([]byte, error) {
 }
 
 func (m *MetadataService) FindByHash(hash string) (res []*msg.Version, err error) {
-	keys, err := m.hashIndex.FindAll(hash)
-	if err != nil {
-		return nil, err
-	}
-	res = make([]*msg.Version, 0, len(keys))
-	needSync := false
-	for _, key := range keys {
-		idx := strings.LastIndexByte(key, '.')
-		name, sequence := key[0:idx], util.ToInt(key[idx+1:])
-		ver, err := m.GetVersion(name, sequence)
-		if errors.Is(err, usecase.ErrNotFound) {
-			needSync = true
-			_ = m.hashIndex.Remove(hash, key)
-			continue
-		} else if err != nil {
-			return nil, err
-		}
-		res = append(res, ver)
+	res, missing, err := m.hashIndex.FindAll(hash)
+	if err != nil || len(missing) == 0 {
+		return res, err
 	}
-	if needSync {
-		err = m.hashIndex.Sync()
+	for _, key := range missing {
+		_ = m.hashIndex.Remove(hash, key)
 	}
-	return
+	return res, m.hashIndex.Sync()
 }
 
 func (m *MetadataService) UpdateLocates(hash string, index int, locate string) error {
-- 
2.43.0


From ee500bf129012baae7ebad83bf4695a128a6c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 06/64] fix: refuse writes on a server that is not the raft
 leader

---
 src/metaserver/internal/usecase/errors.go              | 1 +
 src/metaserver/internal/usecase/raftimpl/raft_apply.go | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/errors.go b/src/metaserver/internal/usecase/errors.go
index 197a512..fad8987 100644
--- a/src/metaserver/internal/usecase/errors.go
+++ b/src/metaserver/internal/usecase/errors.go
@@ -11,6 +11,7 @@ var (
 	ErrReadOnly       = response.NewError(502, "server is readonly")
 	ErrOldData        = response.NewError(400, "data expired")
 	ErrExists         = response.NewError(400, "data exists")
+	ErrNotLeader      = response.NewError(503, "server is not the leader")
 	ErrNilData        = response.NewError(400, "null value")
 )
 
diff --git a/src/metaserver/internal/usecase/raftimpl/raft_apply.go b/src/metaserver/internal/usecase/raftimpl/raft_apply.go
index bdb09f4..16f826e 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_apply.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_apply.go
@@ -35,7 +35,12 @@ func (r *raftApplier) ApplyRaft(data *entity.RaftData) (bool, any, error) {
 		}
 		if rp, ok := resp.(error); ok {
 			return true, nil, rp
-		}		
+		}
+		return true, nil, fmt.Errorf("unknown response from fsm: %v", resp)
+	}
+	// never write around raft, or it will be missing in other servers
+	if r.wrapper.Enabled {
+		return true, nil, usecase.ErrNotLeader
 	}
 	return false, nil, nil
 }
-- 
2.43.0


From ebfa5197d4d32bcc57582329d5cc9e05a0cdadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 07/64] fix: answer grpc version queries with status codes and
 guard UpdateVersion

---
 src/metaserver/internal/controller/grpc/metadata_server.go | 4 ++--
 src/metaserver/internal/controller/grpc/middleware.go      | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/controller/grpc/metadata_server.go b/src/metaserver/internal/controller/grpc/metadata_server.go
index 7ddc199..2b198c6 100644
--- a/src/metaserver/internal/controller/grpc/metadata_server.go
+++ b/src/metaserver/internal/controller/grpc/metadata_server.go
@@ -32,7 +32,7 @@ func (m *MetadataApiServer) GetVersionsByHash(_ context.Context, req *pb.MetaReq
 	}
 	res, err := m.Service.FindByHash(req.Hash)
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
@@ -50,7 +50,7 @@ func (m *MetadataApiServer) ListVersion(_ context.Context, req *pb.MetaReq) (*pb
 	}
 	res, total, err := m.Service.ListVersions(req.Id, int(req.Page.Page), int(req.Page.PageSize))
 	if err != nil {
-		return nil, err
+		return nil, response.GRPCError(err)
 	}
 	bt, err := util.EncodeArrayMsgp(res)
 	if err != nil {
diff --git a/src/metaserver/internal/controller/grpc/middleware.go b/src/metaserver/internal/controller/grpc/middleware.go
index ffb3d33..723c45d 100644
--- a/src/metaserver/internal/controller/grpc/middleware.go
+++ b/src/metaserver/internal/controller/grpc/middleware.go
@@ -35,6 +35,7 @@ var checkWritableMethods = set.OfString([]string{
 	"/proto.MetadataApi/SaveVersion",
 	"/proto.MetadataApi/SaveMetadata",
 	"/proto.MetadataApi/UpdateMetadata",
+	"/proto.MetadataApi/UpdateVersion",
 	"/proto.MetadataApi/SaveBucket",
 	"/proto.MetadataApi/RemoveVersion",
 })
-- 
2.43.0


From 8c2ee80b81f8f87275000f531b415cbaf269bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 08/64] fix: update locates of a hash on all raft servers and
 in one step

---
 src/metaserver/internal/entity/raft_data.go   |  1 +
 src/metaserver/internal/usecase/errors.go     |  1 +
 src/metaserver/internal/usecase/interfaces.go |  2 +-
 .../internal/usecase/raftimpl/fsm_impl.go     | 17 +++++++++++++
 .../internal/usecase/repo/cache_guard.go      | 12 +++++++++
 .../internal/usecase/repo/metadata_repo.go    | 25 +++++++++++++------
 .../usecase/service/metadata_service.go       | 15 ++++++++++-
 7 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/src/metaserver/internal/entity/raft_data.go b/src/metaserver/internal/entity/raft_data.go
index f5967ff..c44375d 100644
--- a/src/metaserver/internal/entity/raft_data.go
+++ b/src/metaserver/internal/entity/raft_data.go
@@ -19,6 +19,7 @@ const (
 	DestVersionAll
 	DestMetadata
 	DestBucket
+	DestLocate
 )
 
 type RaftData struct {
diff --git a/src/metaserver/internal/usecase/errors.go b/src/metaserver/internal/usecase/errors.go
index fad8987..85760b9 100644
--- a/src/metaserver/internal/usecase/errors.go
+++ b/src/metaserver/internal/usecase/errors.go
@@ -12,6 +12,7 @@ var (
 	ErrOldData        = response.NewError(400, "data expired")
 	ErrExists         = response.NewError(400, "data exists")
 	ErrNotLeader      = response.NewError(503, "server is not the leader")
+	ErrLocateIndex    = response.NewError(400, "locate index out of range")
 	ErrNilData        = response.NewError(400, "null value")
 )
 
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index c1998e1..1432be6 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -84,7 +84,7 @@ type (
 	IMetadataRepo interface {
 		WritableRepo
 		ReadableRepo
-		UpdateLocateByHash(hash string, index int, value string) error
+		UpdateLocateByHash(hash string, index int, value string, ts int64) error
 		GetLastVersionNumber(id string) uint64
 		GetFirstVersionNumber(id string) uint64
 		ForeachVersionBytes(string, func([]byte) bool)
diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 0b11cd0..402e3e7 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -94,6 +94,19 @@ func (f *FSMImpl) applyVersionAll(data *entity.RaftData) *FSMResponse {
 	}
 }
 
+// applyLocate Name is the hash, Sequence is the index of Version.Locate[0]
+func (f *FSMImpl) applyLocate(data *entity.RaftData) *FSMResponse {
+	if data.Version == nil || len(data.Version.Locate) == 0 {
+		return FSMResult(ErrNilData)
+	}
+	switch data.Type {
+	case entity.LogUpdate:
+		return FSMResult(f.metaRepo.UpdateLocateByHash(data.Name, int(data.Sequence), data.Version.Locate[0], data.Version.Ts))
+	default:
+		return FSMResult(ErrUnknownRaftLog)
+	}
+}
+
 func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 	if lg == nil || len(lg.Data) == 0 {
 		return FSMResult(ErrNilData)
@@ -116,6 +129,8 @@ func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
 		return f.applyVersionAll(&data)
 	case entity.DestBucket:
 		return f.applyBucket(&data)
+	case entity.DestLocate:
+		return f.applyLocate(&data)
 	}
 	return ErrUnknownRaftLog
 }
@@ -147,6 +162,8 @@ func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
 			res[i] = f.applyVersionAll(&data)
 		case entity.DestBucket:
 			res[i] = f.applyBucket(&data)
+		case entity.DestLocate:
+			res[i] = f.applyLocate(&data)
 		default:
 			res[i] = ErrUnknownRaftLog
 		}
diff --git a/src/metaserver/internal/usecase/repo/cache_guard.go b/src/metaserver/internal/usecase/repo/cache_guard.go
index 05d2b99..7931926 100644
--- a/src/metaserver/internal/usecase/repo/cache_guard.go
+++ b/src/metaserver/internal/usecase/repo/cache_guard.go
@@ -51,6 +51,18 @@ func (s *guardStripe) mark(writing bool, drop func()) {
 	}
 }
 
+// WriteAll runs an update writing any number of records, which has to drop the cached entries of them
+func (g *CacheGuard) WriteAll(update func() error) error {
+	for i := range g.stripes {
+		s := &g.stripes[i]
+		s.writer.Lock()
+		defer s.writer.Unlock()
+		s.mark(true, nil)
+		defer s.mark(false, nil)
+	}
+	return update()
+}
+
 // Begin must be called before reading id from database. The returned func runs
 // fill only if id has not been written since then.
 func (g *CacheGuard) Begin(id string) func(fill func()) {
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index eefb469..ec21162 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -13,7 +13,6 @@ import (
 	"metaserver/internal/usecase/logic"
 	"os"
 	"strings"
-	"time"
 
 	bolt "go.etcd.io/bbolt"
 )
@@ -327,27 +326,39 @@ func (m *MetadataRepo) ApplyIndex(i uint64) error {
 	})
 }
 
-func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
+func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string, ts int64) error {
+	update := func(tx *bolt.Tx) error {
 		var keys []string
 		if err := logic.NewHashIndexLogic().GetIndex(hash, &keys)(tx); err != nil {
 			return err
 		}
-		var v msg.Version
 		for _, key := range keys {
 			idx := strings.LastIndexByte(key, '.')
 			metaId, sequence := key[:idx], util.ToUint64(key[idx+1:])
-			if err := logic.GetVer(metaId, sequence, &v)(tx); err != nil {
+			var v msg.Version
+			err := logic.GetVer(metaId, sequence, &v)(tx)
+			if err != nil && !errors.Is(err, usecase.ErrNotFound) {
 				return err
 			}
-			v.Ts = time.Now().UnixMilli()
+			if err != nil || v.Hash != hash {
+				continue
+			}
+			if index < 0 || index >= len(v.Locate) {
+				return usecase.ErrLocateIndex
+			}
+			// always newer than the original
+			if v.Ts++; ts > v.Ts {
+				v.Ts = ts
+			}
 			v.Locate[index] = value
 			if err := logic.UpdateVer(metaId, &v)(tx); err != nil {
 				return err
 			}
+			util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(metaId, sequence))
 		}
 		return nil
-	})
+	}
+	return m.guard.WriteAll(func() error { return m.MainDB.Update(update) })
 }
 
 func (m *MetadataRepo) ExistsByUniqueId(uniqueId string) (bool, error) {
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index b0dfb32..a4c2e64 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -218,5 +218,18 @@ func (m *MetadataService) FindByHash(hash string) (res []*msg.Version, err error
 }
 
 func (m *MetadataService) UpdateLocates(hash string, index int, locate string) error {
-	return m.repo.UpdateLocateByHash(hash, index, locate)
+	if index < 0 {
+		return usecase.ErrLocateIndex
+	}
+	ts := time.Now().UnixMilli()
+	if ok, _, err := m.ApplyRaft(&entity.RaftData{
+		Type:     entity.LogUpdate,
+		Dest:     entity.DestLocate,
+		Name:     hash,
+		Sequence: uint64(index),
+		Version:  &msg.Version{Locate: []string{locate}, Ts: ts},
+	}); ok {
+		return err
+	}
+	return m.repo.UpdateLocateByHash(hash, index, locate, ts)
 }
-- 
2.43.0


From 256fd226792dc9cb57e4fcfb698e088bc171300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 09/64] fix: replace the metaserver config file atomically

---
 src/metaserver/config/config.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/metaserver/config/config.go b/src/metaserver/config/config.go
index 54e37db..ce90c84 100644
--- a/src/metaserver/config/config.go
+++ b/src/metaserver/config/config.go
@@ -56,19 +56,31 @@ func (c *Config) initialize(filePath string) {
 func (c *Config) Persist() error {
 	c.persistLock.Lock()
 	defer c.persistLock.Unlock()
-	fi, err := os.OpenFile(c.filePath, cst.OS.WriteFlag, cst.OS.ModeUser)
+	bt, err := yaml.Marshal(c)
 	if err != nil {
+		return fmt.Errorf("marshal config to yaml: %w", err)
+	}
+	// never overwrite in place: a crash would leave a config that can't be read
+	tempPath := c.filePath + ".tmp"
+	if err = writeFileSync(tempPath, bt); err != nil {
+		return fmt.Errorf("write data to config '%s': %w", tempPath, err)
+	}
+	if err = os.Rename(tempPath, c.filePath); err != nil {
 		return fmt.Errorf("write data to config '%s': %w", c.filePath, err)
 	}
-	defer fi.Close()
-	enc := yaml.NewEncoder(fi)
-	defer enc.Close()
-	enc.SetIndent(2)
-	err = enc.Encode(c)
+	return nil
+}
+
+func writeFileSync(path string, data []byte) error {
+	fi, err := os.OpenFile(path, cst.OS.WriteFlag, cst.OS.ModeUser)
 	if err != nil {
-		return fmt.Errorf("marshal config to yaml: %w", err)
+		return err
 	}
-	return nil
+	defer fi.Close()
+	if _, err = fi.Write(data); err != nil {
+		return err
+	}
+	return fi.Sync()
 }
 
 type CacheConfig struct {
-- 
2.43.0


From 9e97545bc9f2d0bc7156d2a6570a01ce12458c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 10/64] fix: apply each raft log once on the persistent db

---
 src/metaserver/internal/usecase/db/storage.go | 54 +++++++++++++++-
 src/metaserver/internal/usecase/errors.go     |  1 +
 src/metaserver/internal/usecase/interfaces.go |  2 +-
 .../internal/usecase/raftimpl/fsm_impl.go     | 63 ++++++++-----------
 .../internal/usecase/repo/metadata_repo.go    | 26 +-------
 5 files changed, 84 insertions(+), 62 deletions(-)

diff --git a/src/metaserver/internal/usecase/db/storage.go b/src/metaserver/internal/usecase/db/storage.go
index 72d3814..1a91fa9 100644
--- a/src/metaserver/internal/usecase/db/storage.go
+++ b/src/metaserver/internal/usecase/db/storage.go
@@ -25,6 +25,7 @@ type Storage struct {
 	current      atomic.Value
 	rdOnly       atomic.Value
 	onReplaced   []func()
+	raftIndex    uint64
 }
 
 func NewStorage() *Storage {
@@ -62,7 +63,7 @@ func (s *Storage) Update(fn usecase.TxFunc) error {
 	if s.rdOnly.Load().(bool) {
 		return usecase.ErrReadOnly
 	}
-	return s.DB().Update(fn)
+	return s.write(s.DB().Update, fn)
 }
 
 func (s *Storage) Batch(fn usecase.TxFunc) error {
@@ -75,7 +76,56 @@ func (s *Storage) Batch(fn usecase.TxFunc) error {
 	if s.rdOnly.Load().(bool) {
 		return usecase.ErrReadOnly
 	}
-	return s.DB().Batch(fn)
+	return s.write(s.DB().Batch, fn)
+}
+
+// lastAppliedIndexKey name of the bucket whose sequence is the last applied index of raft log
+const lastAppliedIndexKey = "go.dfs.metadata.special.lastAppliedIndexKey"
+
+// write runs a read-write tx, which also saves the index of the raft log being applied
+func (s *Storage) write(run func(func(*bolt.Tx) error) error, fn usecase.TxFunc) error {
+	finished := false
+	err := run(func(tx *bolt.Tx) error {
+		finished = false
+		if err := fn(tx); err != nil {
+			return err
+		}
+		finished = true
+		return saveAppliedIndex(tx, atomic.LoadUint64(&s.raftIndex))
+	})
+	if err != nil && finished {
+		return fmt.Errorf("%w: %s", usecase.ErrStorage, err)
+	}
+	return err
+}
+
+func saveAppliedIndex(tx *bolt.Tx, index uint64) error {
+	if index == 0 {
+		return nil
+	}
+	buk, err := tx.CreateBucketIfNotExists(util.StrToBytes(lastAppliedIndexKey))
+	if err != nil || index <= buk.Sequence() {
+		return err
+	}
+	return buk.SetSequence(index)
+}
+
+// ApplyIndex runs fn, whose write tx is also recording that raft log of this index has been applied
+func (s *Storage) ApplyIndex(index uint64, fn func()) {
+	atomic.StoreUint64(&s.raftIndex, index)
+	defer atomic.StoreUint64(&s.raftIndex, 0)
+	fn()
+}
+
+// LastAppliedIndex the index of raft log which has been applied last. It returns zero if there isn't any.
+func (s *Storage) LastAppliedIndex() (index uint64, err error) {
+	err = s.View(func(tx *bolt.Tx) error {
+		if buk := tx.Bucket(util.StrToBytes(lastAppliedIndexKey)); buk != nil {
+			index = buk.Sequence()
+		}
+		return nil
+	})
+	return
 }
 
 func (s *Storage) Stop() error {
diff --git a/src/metaserver/internal/usecase/errors.go b/src/metaserver/internal/usecase/errors.go
index 85760b9..e0d6f3b 100644
--- a/src/metaserver/internal/usecase/errors.go
+++ b/src/metaserver/internal/usecase/errors.go
@@ -9,6 +9,7 @@ var (
 	ErrNotFound       = response.NewError(404, "not found")
 	ErrUnknownRaftLog = response.NewError(500, "unknown raft log type")
 	ErrReadOnly       = response.NewError(502, "server is readonly")
+	ErrStorage        = errors.New("storage failure")
 	ErrOldData        = response.NewError(400, "data expired")
 	ErrExists         = response.NewError(400, "data exists")
 	ErrNotLeader      = response.NewError(503, "server is not the leader")
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 1432be6..9e650b9 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -74,7 +74,7 @@ type (
 		Snapshot() (SnapshotTx, error)
 		Restore(io.Reader) error
 		LastAppliedIndex() (uint64, error)
-		ApplyIndex(i uint64) error
+		ApplyIndex(i uint64, fn func())
 	}
 
 	RaftApply interface {
diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 402e3e7..7554d93 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -107,66 +107,52 @@ func (f *FSMImpl) applyLocate(data *entity.RaftData) *FSMResponse {
 	}
 }
 
-func (f *FSMImpl) Apply(lg *raft.Log) (r any) {
+// applyOnce applies a log unless it has been applied before last restart
+func (f *FSMImpl) applyOnce(lg *raft.Log, batch bool) (r any) {
 	if lg == nil || len(lg.Data) == 0 {
 		return FSMResult(ErrNilData)
 	}
 	if lg.Type != raft.LogCommand {
 		return fmt.Errorf("drop recieved fsmLog type %v", lg.Type)
 	}
-
 	var data entity.RaftData
 	if err := util.DecodeMsgp(&data, lg.Data); err != nil {
 		return err
 	}
+	if last, err := f.snapshot.LastAppliedIndex(); err != nil {
+		return err
+	} else if lg.Index <= last {
+		return FSMResult(nil)
+	}
+	data.Batch = batch
+	f.snapshot.ApplyIndex(lg.Index, func() { r = f.apply(&data) })
+	return
+}
 
+func (f *FSMImpl) apply(data *entity.RaftData) any {
 	switch data.Dest {
 	case entity.DestMetadata:
-		return f.applyMetadata(&data)
+		return f.applyMetadata(data)
 	case entity.DestVersion:
-		return f.applyVersion(&data)
+		return f.applyVersion(data)
 	case entity.DestVersionAll:
-		return f.applyVersionAll(&data)
+		return f.applyVersionAll(data)
 	case entity.DestBucket:
-		return f.applyBucket(&data)
+		return f.applyBucket(data)
 	case entity.DestLocate:
-		return f.applyLocate(&data)
+		return f.applyLocate(data)
 	}
 	return ErrUnknownRaftLog
 }
 
+func (f *FSMImpl) Apply(lg *raft.Log) any {
+	return f.applyOnce(lg, false)
+}
+
 func (f *FSMImpl) ApplyBatch(lgs []*raft.Log) []any {
-	var data entity.RaftData
 	res := make([]any, len(lgs))
-
 	for i, lg := range lgs {
-		if lg == nil || len(lg.Data) == 0 {
-			res[i] = FSMResult(ErrNilData)
-			continue
-		}
-		if lg.Type != raft.LogCommand {
-			res[i] = fmt.Errorf("drop recieved fsmLog type %v", lg.Type)
-			continue
-		}
-		if err := util.DecodeMsgp(&data, lg.Data); err != nil {
-			res[i] = err
-			continue
-		}
-		data.Batch = true
-		switch data.Dest {
-		case entity.DestMetadata:
-			res[i] = f.applyMetadata(&data)
-		case entity.DestVersion:
-			res[i] = f.applyVersion(&data)
-		case entity.DestVersionAll:
-			res[i] = f.applyVersionAll(&data)
-		case entity.DestBucket:
-			res[i] = f.applyBucket(&data)
-		case entity.DestLocate:
-			res[i] = f.applyLocate(&data)
-		default:
-			res[i] = ErrUnknownRaftLog
-		}
+		res[i] = f.applyOnce(lg, true)
 	}
 	//NOTICE: metaBatch Sync and bucketBatch Sync it's same for now.
 	if err := f.metaBatch.Sync(); err != nil {
@@ -222,6 +208,11 @@ type FSMResponse struct {
 }
 
 func FSMResult(err error) *FSMResponse {
+	// a committed log must not be skipped, otherwise data of this server will differ from others.
+	// It will be applied again after restart.
+	if errors.Is(err, ErrStorage) {
+		panic(err)
+	}
 	// ignore thie exists check eror
 	if errors.Is(err, ErrExists) {
 		return &FSMResponse{&response.Err{Status: 200}, nil}
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index ec21162..9063af2 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -298,32 +298,12 @@ func (m *MetadataRepo) GetExtra(id string) (*msg.Extra, error) {
 	return &i, err
 }
 
-const lastAppliedIndexKey = "go.dfs.metadata.special.lastAppliedIndexKey"
-
 func (m *MetadataRepo) LastAppliedIndex() (uint64, error) {
-	var r uint64
-	err := m.MainDB.View(func(tx *bolt.Tx) error {
-		specBuc := tx.Bucket(util.StrToBytes(lastAppliedIndexKey))
-		if specBuc == nil {
-			return nil
-		}
-		r = specBuc.Sequence()
-		return nil
-	})
-	return r, err
+	return m.MainDB.LastAppliedIndex()
 }
 
-func (m *MetadataRepo) ApplyIndex(i uint64) error {
-	return m.MainDB.Update(func(tx *bolt.Tx) error {
-		specBuc, err := tx.CreateBucketIfNotExists(util.StrToBytes(lastAppliedIndexKey))
-		if err != nil {
-			return err
-		}
-		if i > specBuc.Sequence() {
-			return specBuc.SetSequence(i)
-		}
-		return nil
-	})
+func (m *MetadataRepo) ApplyIndex(i uint64, fn func()) {
+	m.MainDB.ApplyIndex(i, fn)
 }
 
 func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string, ts int64) error {
-- 
2.43.0


From a5020681c108ca3fbcccf8a23476dab8a53edbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 11/64] fix: stop raft before its storage is closed

---
 src/metaserver/internal/usecase/pool/pool.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/metaserver/internal/usecase/pool/pool.go b/src/metaserver/internal/usecase/pool/pool.go
index 9ddb56e..927d7af 100644
--- a/src/metaserver/internal/usecase/pool/pool.go
+++ b/src/metaserver/internal/usecase/pool/pool.go
@@ -97,11 +97,12 @@ func initCache(cfg config.CacheConfig) {
 }
 
 func Close() {
-	util.LogErr(Storage.Stop())
-	util.LogErr(Lifecycle.Close())
-	util.LogErr(HashSlot.Close(time.Minute))
+	// raft is still writing logs into the storage until it has been closed
 	if RaftWrapper != nil {
 		util.LogErr(RaftWrapper.Close())
 	}
+	util.LogErr(Storage.Stop())
+	util.LogErr(Lifecycle.Close())
+	util.LogErr(HashSlot.Close(time.Minute))
 	util.LogErr(Etcd.Close())
 }
-- 
2.43.0


From 7a7e22090f74de7458b0e90a381230dc6dfc7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 12/64] fix: drain grpc requests on shutdown instead of
 panicking

---
 src/common/util/h2c_handler.go                | 51 +++++++++++++++++++
 .../internal/controller/grpc/grpc.go          | 22 ++++----
 .../internal/controller/http/http.go          |  1 +
 .../internal/controller/grpc/grpc.go          | 22 ++++----
 .../internal/controller/http/router.go        |  1 +
 5 files changed, 75 insertions(+), 22 deletions(-)

diff --git a/src/common/util/h2c_handler.go b/src/common/util/h2c_handler.go
index 13e764e..d615cae 100644
--- a/src/common/util/h2c_handler.go
+++ b/src/common/util/h2c_handler.go
@@ -11,6 +11,7 @@ import (
 	"google.golang.org/grpc/status"
 	"net/http"
 	"strings"
+	"sync"
 )
 
 type H2Server struct {
@@ -31,6 +32,56 @@ func (h *H2Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	h.httpHandler.ServeHTTP(w, r)
 }
 
+// RpcDrainer tracks grpc requests served by grpc.Server.ServeHTTP, which can't be drained by GracefulStop
+type RpcDrainer struct {
+	mu      sync.Mutex
+	serving int
+	idle    chan struct{}
+}
+
+// ServeHTTP serves a grpc request unless it's draining
+func (d *RpcDrainer) ServeHTTP(server http.Handler, w http.ResponseWriter, r *http.Request) {
+	// streams of raft never end by themselves
+	if strings.HasPrefix(r.URL.Path, "/RaftTransport/") {
+		server.ServeHTTP(w, r)
+		return
+	}
+	d.mu.Lock()
+	if d.idle != nil {
+		d.mu.Unlock()
+		w.WriteHeader(http.StatusServiceUnavailable)
+		return
+	}
+	d.serving++
+	d.mu.Unlock()
+	defer func() {
+		d.mu.Lock()
+		defer d.mu.Unlock()
+		if d.serving--; d.serving == 0 && d.idle != nil {
+			close(d.idle)
+		}
+	}()
+	server.ServeHTTP(w, r)
+}
+
+// Drain refuses new requests and waits for the ones being served
+func (d *RpcDrainer) Drain(ctx context.Context) error {
+	d.mu.Lock()
+	if d.idle == nil {
+		d.idle = make(chan struct{})
+		if d.serving == 0 {
+			close(d.idle)
+		}
+	}
+	d.mu.Unlock()
+	select {
+	case <-d.idle:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func CommonUnaryInterceptors() grpc.ServerOption {
 	return grpc.ChainUnaryInterceptor(UnaryServerRecoveryInterceptor(), UnaryLoggerInterceptor())
 }
diff --git a/src/metaserver/internal/controller/grpc/grpc.go b/src/metaserver/internal/controller/grpc/grpc.go
index e666251..dd9db2a 100644
--- a/src/metaserver/internal/controller/grpc/grpc.go
+++ b/src/metaserver/internal/controller/grpc/grpc.go
@@ -9,12 +9,14 @@ import (
 	"google.golang.org/grpc"
 	"metaserver/internal/usecase"
 	"metaserver/internal/usecase/raftimpl"
+	"net/http"
 )
 
 var log = logs.New("grpc-server")
 
 type Server struct {
 	*grpc.Server
+	drainer util.RpcDrainer
 }
 
 // NewRpcServer init a grpc raft server. if no available nodes return empty object
@@ -45,23 +47,21 @@ func NewRpcServer(maxStreams uint32, rw *raftimpl.RaftWrapper, serv1 usecase.IMe
 	pb.RegisterHashSlotServer(server, NewHashSlotServer(serv2))
 	pb.RegisterMetadataApiServer(server, NewMetadataApiServer(serv1, serv3))
 	pb.RegisterConfigServiceServer(server, &ConfigServiceServer{})
-	return &Server{server}
+	return &Server{Server: server}
 }
 
 func (r *Server) Shutdown(ctx context.Context) error {
 	if r.Server == nil {
 		return nil
 	}
-	finish := make(chan struct{})
-	go func() {
-		defer close(finish)
-		r.Server.GracefulStop()
-	}()
-	select {
-	case <-ctx.Done():
-		r.Server.Stop()
+	err := r.drainer.Drain(ctx)
+	r.Server.Stop()
+	if err != nil {
 		return errors.New("graceful stop grpc server timeout")
-	case <-finish:
-		return nil
 	}
+	return nil
+}
+
+func (r *Server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
+	r.drainer.ServeHTTP(r.Server, w, req)
 }
diff --git a/src/metaserver/internal/controller/http/http.go b/src/metaserver/internal/controller/http/http.go
index 9d29fbe..a95a418 100644
--- a/src/metaserver/internal/controller/http/http.go
+++ b/src/metaserver/internal/controller/http/http.go
@@ -57,5 +57,6 @@ func (s *Server) Shutdown(c context.Context) error {
 		defer dg.Done()
 		err2 = s.Server.Shutdown(c)
 	}()
+	dg.Wait()
 	return errors.Join(err1, err2)
 }
diff --git a/src/objectserver/internal/controller/grpc/grpc.go b/src/objectserver/internal/controller/grpc/grpc.go
index 6712fe1..970ea77 100644
--- a/src/objectserver/internal/controller/grpc/grpc.go
+++ b/src/objectserver/internal/controller/grpc/grpc.go
@@ -7,11 +7,13 @@ import (
 	"context"
 	"errors"
 	"google.golang.org/grpc"
+	"net/http"
 	"objectserver/internal/usecase/service"
 )
 
 type Server struct {
 	*grpc.Server
+	drainer util.RpcDrainer
 }
 
 func NewServer(service *service.MigrationService) *Server {
@@ -24,23 +26,21 @@ func NewServer(service *service.MigrationService) *Server {
 
 	pb.RegisterObjectMigrationServer(serv, NewMigrationServer(service))
 	pb.RegisterConfigServiceServer(serv, &ConfigServiceServer{})
-	return &Server{serv}
+	return &Server{Server: serv}
 }
 
 func (r *Server) Shutdown(ctx context.Context) error {
 	if r.Server == nil {
 		return nil
 	}
-	finish := make(chan struct{})
-	go func() {
-		defer close(finish)
-		r.Server.GracefulStop()
-	}()
-	select {
-	case <-ctx.Done():
-		r.Server.Stop()
+	err := r.drainer.Drain(ctx)
+	r.Server.Stop()
+	if err != nil {
 		return errors.New("graceful stop grpc server timeout")
-	case <-finish:
-		return nil
 	}
+	return nil
+}
+
+func (r *Server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
+	r.drainer.ServeHTTP(r.Server, w, req)
 }
diff --git a/src/objectserver/internal/controller/http/router.go b/src/objectserver/internal/controller/http/router.go
index 8ff46b6..b011311 100644
--- a/src/objectserver/internal/controller/http/router.go
+++ b/src/objectserver/internal/controller/http/router.go
@@ -62,5 +62,6 @@ func (s *Server) Shutdown(c context.Context) error {
 		defer dg.Done()
 		err2 = s.Server.Shutdown(c)
 	}()
+	dg.Wait()
 	return errors.Join(err1, err2)
 }
-- 
2.43.0


From aec6f6f9ae9ab012c63d0b77ea82a88fb284d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 13/64] fix: deliver errors before a done group is done

---
 src/common/util/done_group.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/common/util/done_group.go b/src/common/util/done_group.go
index e9318c4..73663de 100644
--- a/src/common/util/done_group.go
+++ b/src/common/util/done_group.go
@@ -49,6 +49,11 @@ func NewDoneGroup() DoneGroup {
 
 // Done equals to WaitGroup Done() but recover and call Error() on panic
 func (d *doneGroup) Done() {
+	// recover panic of calling goroutine, the error must be delivered before the group is done
+	if err := recover(); err != nil {
+		graceful.PrintStacks(err)
+		d.Error(errors.New(fmt.Sprint(err)))
+	}
 	// recover panic from d.WaitGroup.Done()
 	defer func() {
 		if err := recover(); err != nil {
@@ -57,11 +62,6 @@ func (d *doneGroup) Done() {
 		}
 	}()
 	d.WaitGroup.Done()
-	// recover panic of calling goroutine
-	if err := recover(); err != nil {
-		graceful.PrintStacks(err)
-		d.Error(errors.New(fmt.Sprint(err)))
-	}
 }
 
 // Todo equals to wg.Add(1)
@@ -103,7 +103,6 @@ func (d *doneGroup) WaitDone() <-chan struct{} {
 		}()
 		defer close(ch)
 		d.Wait()
-		ch <- struct{}{}
 	}()
 	return ch
 }
@@ -119,10 +118,16 @@ func (d *doneGroup) Close() {
 func (d *doneGroup) WaitUntilError() error {
 	select {
 	case <-d.WaitDone():
-		return nil
 	case e := <-d.WaitError():
 		return e
 	}
+	// both of them may be ready
+	select {
+	case e := <-d.WaitError():
+		return e
+	default:
+		return nil
+	}
 }
 
 type limitDoneGroup struct {
@@ -141,13 +146,13 @@ func (ldg *limitDoneGroup) Todo() {
 }
 
 func (ldg *limitDoneGroup) Done() {
-	ldg.DoneGroup.Done()
-	<-ldg.limitChan
-	// recover panic of calling goroutine
+	// recover panic of calling goroutine, the error must be delivered before the group is done
 	if err := recover(); err != nil {
 		graceful.PrintStacks(err)
 		ldg.Error(errors.New(fmt.Sprint(err)))
 	}
+	ldg.DoneGroup.Done()
+	<-ldg.limitChan
 }
 
 func (ldg *limitDoneGroup) Close() {
-- 
2.43.0


From 05aa117fd70000762192cb3cb295f2ad9aea1f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 14/64] fix: recover from panics instead of panicking again

---
 src/common/graceful/recover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/graceful/recover.go b/src/common/graceful/recover.go
index 32cdec0..162595b 100644
--- a/src/common/graceful/recover.go
+++ b/src/common/graceful/recover.go
@@ -19,7 +19,7 @@ func Recover(fn ...func(msg string)) {
 }
 
 func PrintStacks(msg any) {
-	logger.Panicf("%s\n%s", msg, GetStacks())
+	logger.Errorf("%s\n%s", msg, GetStacks())
 }
 
 func GetStacks() string {
-- 
2.43.0


From f1fa0d08065df6aa181991b180c1955a7ad463ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 15/64] fix: reload slots after saving them and before refusing
 a key

---
 .../internal/usecase/logic/hashslot_logic.go  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/hashslot_logic.go b/src/metaserver/internal/usecase/logic/hashslot_logic.go
index 6e1260d..af93d2b 100644
--- a/src/metaserver/internal/usecase/logic/hashslot_logic.go
+++ b/src/metaserver/internal/usecase/logic/hashslot_logic.go
@@ -13,11 +13,22 @@ func NewHashSlot() HashSlot { return HashSlot{} }
 
 func (h HashSlot) IsKeyOnThisServer(key string) (bool, string) {
 	id, err := pool.HashSlot.GetKeyIdentify(key)
+	if err == nil && isThisServer(id) {
+		return true, id
+	}
+	// slots may have been moved or taken over by a new leader since last loading
+	if _, err = pool.HashSlot.GetEdgeProvider(true); err == nil {
+		id, err = pool.HashSlot.GetKeyIdentify(key)
+	}
 	if err != nil {
 		logs.Std().Error(err)
 		return false, ""
 	}
-	return id == pool.Config.Registry.SID() || id == pool.RaftWrapper.LeaderID(), id
+	return isThisServer(id), id
+}
+
+func isThisServer(id string) bool {
+	return id == pool.Config.Registry.SID() || id == pool.RaftWrapper.LeaderID()
 }
 
 func (HashSlot) GetSlotsProvider() (hashslot.IEdgeProvider, error) {
@@ -34,7 +45,11 @@ func (h HashSlot) SaveToEtcd(id string, info *hashslot.SlotInfo) error {
 			return
 		}
 	}()
-	return pool.HashSlot.Save(id, info)
+	if err := pool.HashSlot.Save(id, info); err != nil {
+		return err
+	}
+	_, err := pool.HashSlot.GetEdgeProvider(true)
+	return err
 }
 
 func (HashSlot) RemoveFromEtcd(id string) error {
-- 
2.43.0


From fc99549252b1d4116572dc5a664bfc245c8e325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 16/64] fix: keep slots of a raft group when its leader exits

---
 src/metaserver/internal/app/app.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index afa4700..4b18e60 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -68,13 +68,13 @@ func Run(cfg *config.Config) {
 	raftWrapper.RegisterLeaderChangedEvent(hsService)
 	raftWrapper.RegisterLeaderChangedEvent(logic.NewRegistry())
 
-	// remove and update slots info from etcd if shutdown as a leader
+	// update slots info and remove it from etcd on shutdown, but slots of a raft group still belong to the remaining servers
 	defer func() {
-		slot, _, err := pool.HashSlot.Get(cfg.HashSlot.StoreID)
-		if err == nil {
+		slot, ok, err := pool.HashSlot.Get(cfg.HashSlot.StoreID)
+		if err == nil && ok {
 			cfg.HashSlot.Slots = slot.Slots
 		}
-		if raftWrapper.IsLeader() || !raftWrapper.Enabled {
+		if !raftWrapper.Enabled {
 			util.LogErr(pool.HashSlot.Remove(cfg.HashSlot.StoreID))
 		}
 	}()
-- 
2.43.0


From 518799b3d6401a74fce9d11c3d992acd534c00a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 17/64] fix: sync the restored db file before it replaces the
 old one

---
 src/metaserver/internal/usecase/repo/metadata_repo.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 9063af2..2ad9567 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -247,7 +247,7 @@ func (m *MetadataRepo) Snapshot() (usecase.SnapshotTx, error) {
 func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 	dbPath := m.MainDB.DB().Path() + "_replace"
 	// open new db file
-	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	newFile, err := os.OpenFile(dbPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, cst.OS.ModeUser)
 	if err != nil {
 		logs.Std().Errorf("restore fail on open new file: %v", err)
 		return err
@@ -258,6 +258,11 @@ func (m *MetadataRepo) Restore(r io.Reader) (err error) {
 		logs.Std().Errorf("restore fail on copy data to new file: %v, written %d", err, n)
 		return err
 	}
+	// the new file must survive a power failure before it takes the place of the old one
+	if err := newFile.Sync(); err != nil {
+		logs.Std().Errorf("sync new db file err: %s", err)
+		return err
+	}
 	if err := newFile.Close(); err != nil {
 		logs.Std().Errorf("close new db file err: %s", err)
 		return err
-- 
2.43.0


From 3b091c6e765aa5d265324e8decaf1e7f12582d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 18/64] fix: refuse a metadata update whose body cannot be read

---
 src/metaserver/internal/controller/http/metadata_rest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/controller/http/metadata_rest.go b/src/metaserver/internal/controller/http/metadata_rest.go
index d72179c..b6d769d 100644
--- a/src/metaserver/internal/controller/http/metadata_rest.go
+++ b/src/metaserver/internal/controller/http/metadata_rest.go
@@ -42,7 +42,10 @@ func (m *MetadataController) Post(g *gin.Context) {
 
 func (m *MetadataController) Put(g *gin.Context) {
 	var data msg.Metadata
-	_ = g.ShouldBindJSON(&data)
+	if err := g.ShouldBindJSON(&data); err != nil {
+		response.FailErr(err, g)
+		return
+	}
 	if err := m.service.UpdateMetadata(g.Param("name"), &data); err != nil {
 		response.FailErr(err, g)
 		return
-- 
2.43.0


From caa50ac533c424c13190842d60c8af43d0174bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 19/64] fix: don't hold the lock of lifecycle while granting a
 lease

---
 src/common/registry/etcd_lifecycle.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/registry/etcd_lifecycle.go b/src/common/registry/etcd_lifecycle.go
index 927c85f..78d06b5 100644
--- a/src/common/registry/etcd_lifecycle.go
+++ b/src/common/registry/etcd_lifecycle.go
@@ -47,14 +47,14 @@ func (lc *Lifecycle) Lease() clientv3.LeaseID {
 func (lc *Lifecycle) DeadLoop() {
 	defer graceful.Recover()
 	for {
-		// lock to update lease
-		lc.mux.Lock()
 		leaseResp, err := lc.Client.Grant(context.Background(), int64(lc.ttl.Seconds()))
 		if err != nil {
 			registryLog.Errorf("grant lifecycle lease err: %s", err)
 			time.Sleep(5 * time.Second)
 			continue
 		}
+		// lock to update lease
+		lc.mux.Lock()
 		lc.lease = leaseResp.ID
 		lc.mux.Unlock()
 
-- 
2.43.0


From 12c186a07cdc0433d3e710773c4360bdca3ea7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 20/64] fix: discover services registered between fetching and
 watching

---
 src/common/registry/etcd_discovery.go | 108 ++++++++++++++------------
 src/common/registry/service_list.go   |  14 ++--
 2 files changed, 66 insertions(+), 56 deletions(-)

diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 5c35a33..2c8a812 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -32,72 +32,80 @@ func NewEtcdDiscovery(cli *clientv3.Client, cfg *Config) *EtcdDiscovery {
 	}
 	for _, s := range cfg.Services {
 		d.services[s] = newServiceList()
-		d.initService(s)
 	}
 	// save self
 	addr, _ := cfg.RegisterAddr()
 	d.addService(cfg.Name, addr, cfg.RegisterKey())
+	for _, s := range cfg.Services {
+		d.initService(s)
+	}
 	return d
 }
 
 func (e *EtcdDiscovery) initService(serv string) {
+	// entries which are known without ETCD
+	self := e.services[serv].copy()
 	go func() {
 		defer graceful.Recover()
-		// fetch kvs
-		prefix := cst.EtcdPrefix.FmtRegistry(e.group, serv)
-		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-		defer cancel()
-		res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
-		if err != nil {
-			registryLog.Warnf("discovery init service %s error: %s", prefix, err)
-			return
-		}
-		// wrap kvs
-		mp := make(map[string]string)
-		for _, kv := range res.Kvs {
-			mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+		for e.context.Err() == nil {
+			prefix := cst.EtcdPrefix.FmtRegistry(e.group, serv)
+			rev, err := e.fetch(serv, prefix, self)
+			if err != nil {
+				registryLog.Warnf("discovery init service %s error: %s", prefix, err)
+			} else {
+				// watch changes since the fetched revision, fetch again when watching stops
+				e.watch(serv, prefix, rev+1)
+			}
+			// sleep 2 sec before retry
+			select {
+			case <-e.context.Done():
+			case <-time.After(2 * time.Second):
+			}
 		}
-		// init serv
-		e.services[serv].combine(mp)
-		// start watch change
-		e.asyncWatch(serv, prefix)
 	}()
 }
 
-func (e *EtcdDiscovery) asyncWatch(serv, prefix string) {
-	go func() {
-		defer graceful.Recover()
-		for {
-			var success bool
-			ch := e.cli.Watch(e.context, prefix, clientv3.WithPrefix())
-			for res := range ch {
-				if res.Canceled {
-					registryLog.Errorf("dicovery for %s abort: %s", serv, res.Err())
-					success = false
-					break
-				}
-				for _, event := range res.Events {
-					// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
-					key := util.BytesToStr(event.Kv.Key)
-					addr := util.BytesToStr(event.Kv.Value)
-					switch event.Type {
-					case mvccpb.PUT:
-						registryLog.Tracef("%s:%s added", serv, addr)
-						e.addService(serv, addr, key)
-					case mvccpb.DELETE:
-						registryLog.Tracef("%s:%s removed", serv, key)
-						e.removeService(serv, key)
-					}
-				}
-			}
-			// break if canceled by context
-			if success {
-				break
+// fetch replaces the list of service by current registered ones. returns the revision of list.
+func (e *EtcdDiscovery) fetch(serv, prefix string, self map[string]string) (int64, error) {
+	ctx, cancel := context.WithTimeout(e.context, 5*time.Second)
+	defer cancel()
+	res, err := e.cli.Get(ctx, prefix, clientv3.WithPrefix())
+	if err != nil {
+		return 0, err
+	}
+	mp := make(map[string]string, len(res.Kvs)+len(self))
+	for k, v := range self {
+		mp[k] = v
+	}
+	for _, kv := range res.Kvs {
+		mp[util.BytesToStr(kv.Key)] = util.BytesToStr(kv.Value)
+	}
+	e.services[serv].replace(mp)
+	return res.Header.Revision, nil
+}
+
+func (e *EtcdDiscovery) watch(serv, prefix string, rev int64) {
+	ctx, cancel := context.WithCancel(e.context)
+	defer cancel()
+	for res := range e.cli.Watch(ctx, prefix, clientv3.WithPrefix(), clientv3.WithRev(rev)) {
+		if err := res.Err(); err != nil {
+			registryLog.Errorf("dicovery for %s abort: %s", serv, err)
+			return
+		}
+		for _, event := range res.Events {
+			// Key will be like ${group}/registry/${serv}/${id}_${slave/master}
+			key := util.BytesToStr(event.Kv.Key)
+			addr := util.BytesToStr(event.Kv.Value)
+			switch event.Type {
+			case mvccpb.PUT:
+				registryLog.Tracef("%s:%s added", serv, addr)
+				e.addService(serv, addr, key)
+			case mvccpb.DELETE:
+				registryLog.Tracef("%s:%s removed", serv, key)
+				e.removeService(serv, key)
 			}
-			// sleep 2 sec before retry
-			time.Sleep(2 * time.Second)
 		}
-	}()
+	}
 }
 
 func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
diff --git a/src/common/registry/service_list.go b/src/common/registry/service_list.go
index e6f9e70..896a6db 100644
--- a/src/common/registry/service_list.go
+++ b/src/common/registry/service_list.go
@@ -15,10 +15,10 @@ func newServiceListOf(mp map[string]string) *serviceList {
 	return &serviceList{mp, &sync.RWMutex{}}
 }
 
-func (s *serviceList) combine(mp map[string]string) {
-	for k, v := range mp {
-		s.data[k] = v
-	}
+func (s *serviceList) replace(mp map[string]string) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	s.data = mp
 }
 
 func (s *serviceList) add(ip string, key string) {
@@ -34,9 +34,9 @@ func (s *serviceList) remove(registerKey string) {
 }
 
 func (s *serviceList) list() []string {
-	ls := make([]string, 0, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make([]string, 0, len(s.data))
 	for _, v := range s.data {
 		ls = append(ls, v)
 	}
@@ -45,9 +45,9 @@ func (s *serviceList) list() []string {
 
 // copy returns a map of value=address key=registered key
 func (s *serviceList) copy() map[string]string {
-	ls := make(map[string]string, len(s.data))
 	s.lock.RLock()
 	defer s.lock.RUnlock()
+	ls := make(map[string]string, len(s.data))
 	for k, v := range s.data {
 		ls[k] = v
 	}
@@ -55,5 +55,7 @@ func (s *serviceList) copy() map[string]string {
 }
 
 func (s *serviceList) Len() int {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return len(s.data)
 }
-- 
2.43.0


From dca4c012e394fce8d6c93f7995cdfa7a0dba2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 21/64] fix: serve the requested part of an object exactly

---
 .../controller/http/objects/objects_cache.go  | 12 ++++-
 .../controller/http/objects/objects_rest.go   | 48 ++++++++++++++-----
 .../usecase/service/objects_service.go        | 27 ++++++++---
 3 files changed, 68 insertions(+), 19 deletions(-)

diff --git a/src/objectserver/internal/controller/http/objects/objects_cache.go b/src/objectserver/internal/controller/http/objects/objects_cache.go
index 7017b1a..16e1dca 100644
--- a/src/objectserver/internal/controller/http/objects/objects_cache.go
+++ b/src/objectserver/internal/controller/http/objects/objects_cache.go
@@ -2,6 +2,7 @@ package objects
 
 import (
 	"common/logs"
+	"common/util"
 	"net/http"
 	"objectserver/internal/usecase/pool"
 
@@ -9,8 +10,15 @@ import (
 )
 
 func GetFromCache(g *gin.Context) {
-	name := g.Param("name")
-	if bt, ok := pool.Cache.HasGet(name); ok {
+	req, offset, err := bindGetReq(g)
+	if err != nil {
+		// let the next handler response it
+		return
+	}
+	name := req.Name
+	if bt, ok := pool.Cache.HasGet(name); ok && int64(len(bt)) == req.Size && offset <= req.Size {
+		bt = bt[offset:]
+		g.Header("Content-Length", util.IntString(len(bt)))
 		if _, e := g.Writer.Write(bt); e != nil {
 			logs.Std().Debugf("match file cache %v, but written to response error: %v", name, e)
 			g.AbortWithStatus(http.StatusInternalServerError)
diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 605b13f..37d93f0 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -3,8 +3,11 @@ package objects
 import (
 	"bytes"
 	"common/graceful"
+	"common/logs"
 	"common/request"
 	"common/response"
+	"common/util"
+	"common/util/math"
 	"io"
 	"net/http"
 	"objectserver/internal/entity"
@@ -57,29 +60,52 @@ func Delete(c *gin.Context) {
 	c.Status(http.StatusNoContent)
 }
 
-func Get(c *gin.Context) {
-	req := &struct {
-		Name     string `uri:"name"`
-		Range    string `header:"range"`
-		Size     int64  `header:"size" binding:"required"`
-		Compress bool   `form:"compress"`
-	}{}
+type getReq struct {
+	Name     string `uri:"name"`
+	Range    string `header:"range"`
+	Size     int64  `header:"size" binding:"required"` // Size is the whole size of the object
+	Compress bool   `form:"compress"`
+}
+
+// bindGetReq returns the request and the first position to read
+func bindGetReq(c *gin.Context) (*getReq, int64, error) {
+	req := &getReq{}
 	if err := entity.BindAll(c, req, binding.Uri, binding.Query, binding.Header); err != nil {
-		response.FailErr(err, c)
-		return
+		return nil, 0, err
 	}
 	var rg request.Range
 	var offset int64
 	if ok := rg.ConvertFrom(req.Range); ok {
 		offset = rg.FirstBytes().First
 	}
+	if offset < 0 {
+		return nil, 0, response.NewError(http.StatusBadRequest, "invalid range")
+	}
+	return req, offset, nil
+}
+
+func Get(c *gin.Context) {
+	req, offset, err := bindGetReq(c)
+	if err != nil {
+		response.FailErr(err, c)
+		return
+	}
 	var writer io.Writer = c.Writer
 	var buf bytes.Buffer
-	if uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
+	// only a completed object can be cached
+	if offset == 0 && uint64(req.Size) <= pool.Config.Cache.MaxItemSize.Byte() {
 		buf.Grow(int(req.Size))
 		writer = io.MultiWriter(c.Writer, &buf)
 	}
-	if err := service.Get(req.Name, offset, req.Size, req.Compress, writer); err != nil {
+	// with content-length, client is able to find out that response is incomplete
+	c.Header("Content-Length", util.IntString(math.MaxNumber(req.Size-offset, 0)))
+	if err = service.Get(req.Name, offset, req.Size, req.Compress, writer); err != nil {
+		if c.Writer.Written() {
+			// part of object has been sent, nothing else can follow it
+			logs.Std().Errorf("get object %s err: %s", req.Name, err)
+			return
+		}
+		c.Writer.Header().Del("Content-Length")
 		response.FailErr(err, c)
 		return
 	}
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 9a10a99..bc11c20 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -124,7 +124,8 @@ func Get(name string, offset, size int64, compress bool, writer io.Writer) (err
 	return nil
 }
 
-// GetFile read file with provided size. offset corresponds to io.SeekStart.
+// GetFile read file with provided size which is the whole size of the object, the part before offset will be skipped.
+// returns io.ErrUnexpectedEOF if file is shorter than size. offset corresponds to io.SeekStart.
 // if offset is not multiple of 4KB, direct-io will be disabled.
 func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 	file, err := disk.OpenFileDirectIO(fullPath, os.O_RDONLY, cst.OS.ModeUser)
@@ -146,8 +147,15 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 			return err
 		}
 	}
-	bufSize := math.MinInt(int(size), 8*cst.OS.PageSize)
-	_, err = io.CopyBuffer(writer, disk.LimitReader(file, size), disk.AlignedBlock(bufSize))
+	if size -= offset; size <= 0 {
+		return nil
+	}
+	// direct-io requires that the buffer is aligned
+	bufSize := disk.AlignedSize(math.MinInt(int(size), 8*cst.OS.PageSize))
+	n, err := io.CopyBuffer(writer, disk.LimitReader(file, size), disk.AlignedBlock(bufSize))
+	if err == nil && n < size {
+		err = io.ErrUnexpectedEOF
+	}
 	return err
 }
 
@@ -241,7 +249,7 @@ func WriteFile(fullPath string, fileStream io.Reader) (int64, error) {
 	return AppendFileAligned(fullPath, fileStream, 2*cst.OS.PageSize)
 }
 
-// GetFileCompress read s2-compressed file and work with COW
+// GetFileCompress read s2-compressed file and work with COW. size and offset are of the uncompressed data.
 func GetFileCompress(fullPath string, offset, size int64, writer io.Writer) error {
 	file, err := os.Open(fullPath)
 	if os.IsNotExist(err) {
@@ -251,13 +259,20 @@ func GetFileCompress(fullPath string, offset, size int64, writer io.Writer) erro
 		return err
 	}
 	defer file.Close()
+	if size -= offset; size <= 0 {
+		return nil
+	}
+	reader := s2.NewReader(file)
 	if offset > 0 {
-		if _, err = file.Seek(offset, io.SeekStart); err != nil {
+		if err = reader.Skip(offset); err != nil {
 			return err
 		}
 	}
 	bufSize := math.MinNumber(8*cst.OS.PageSize, int(size))
-	_, err = io.CopyBuffer(writer, io.LimitReader(s2.NewReader(file), size), make([]byte, bufSize))
+	n, err := io.CopyBuffer(writer, io.LimitReader(reader, size), make([]byte, bufSize))
+	if err == nil && n < size {
+		err = io.ErrUnexpectedEOF
+	}
 	return err
 }
 
-- 
2.43.0


From 5f4a255255c955a39dd95b73b6ea6a4e64dd58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 22/64] fix: don't pad data which is cut off

---
 src/common/system/disk/aligend_reader.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/common/system/disk/aligend_reader.go b/src/common/system/disk/aligend_reader.go
index 5e24aa7..e7b2979 100644
--- a/src/common/system/disk/aligend_reader.go
+++ b/src/common/system/disk/aligend_reader.go
@@ -35,9 +35,17 @@ func NewAlignedReader(rd io.Reader) *AlignedReader {
 
 func (ar *AlignedReader) Read(p []byte) (n int, err error) {
 	length := len(p)
-	n, err = io.ReadFull(ar.Reader, p)
-	if err == io.ErrUnexpectedEOF {
-		err = io.EOF
+	for n < length && err == nil {
+		var nn int
+		nn, err = ar.Reader.Read(p[n:])
+		n += nn
+	}
+	if n == length {
+		return n, nil
+	}
+	if err != io.EOF {
+		// data is incomplete, don't see it as the last part
+		return 0, err
 	}
 	// padding zero if needed
 	paddingEnd := math.MinInt(length, AlignedSize(n))
-- 
2.43.0


From fb7cdd7a790b194867174442990e2b9682bd96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 23/64] fix: align the blocks of shards to page size

---
 src/apiserver/config/config.go                | 25 ++++++++++++++++---
 src/apiserver/internal/entity/metadata.go     |  7 +-----
 .../usecase/service/object_service.go         |  6 +----
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/apiserver/config/config.go b/src/apiserver/config/config.go
index f65fe02..59fc579 100644
--- a/src/apiserver/config/config.go
+++ b/src/apiserver/config/config.go
@@ -8,6 +8,7 @@ import (
 	"common/logs"
 	"common/performance"
 	"common/registry"
+	"common/util/math"
 	"os"
 	"time"
 
@@ -33,10 +34,8 @@ type Config struct {
 
 func (c *Config) initialize() {
 	c.Registry.ServerPort = c.Port
-	if i := c.Object.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-		newSize := c.Object.ReedSolomon.BlockSize() - i + cst.OS.NetPkgSize
-		c.Object.ReedSolomon.BlockPerShard = newSize / c.Object.ReedSolomon.DataShards
-		logs.Std().Warnf("aligned object.reedsolomon.block-per-shard to %d", c.Object.ReedSolomon.BlockPerShard)
+	if rs := &c.Object.ReedSolomon; rs.AlignBlock(0) {
+		logs.Std().Warnf("aligned object.reedsolomon.block-per-shard to %d", rs.BlockPerShard)
 	}
 	if i := c.Object.Replication.BlockSize % datasize.DataSize(cst.OS.NetPkgSize); i > 0 {
 		c.Object.Replication.BlockSize = c.Object.Replication.BlockSize - i + datasize.DataSize(cst.OS.NetPkgSize)
@@ -92,6 +91,24 @@ func (r *RsConfig) FullSize() int {
 	return r.BlockPerShard * r.AllShards()
 }
 
+// AlignBlock increases BlockPerShard to make it multiple of page size and BlockSize is multiple of net package size,
+// because data-servers only accept aligned parts of a shard except the last one. returns false if it's aligned already.
+// BlockSize won't be greater than required by an object of maxSize, 0 means unlimited.
+func (r *RsConfig) AlignBlock(maxSize int64) bool {
+	pageSize := cst.OS.PageSize
+	if r.BlockPerShard%pageSize == 0 && r.BlockSize()%cst.OS.NetPkgSize == 0 {
+		return false
+	}
+	r.BlockPerShard = math.CeilDiv(r.BlockPerShard, pageSize) * pageSize
+	for r.BlockSize()%cst.OS.NetPkgSize > 0 {
+		r.BlockPerShard += pageSize
+	}
+	if maxSize > 0 && int64(r.BlockSize()) > maxSize {
+		r.BlockPerShard = math.CeilDiv(r.ShardSize(maxSize), pageSize) * pageSize
+	}
+	return true
+}
+
 func (r *RsConfig) ShardSize(totalSize int64) int {
 	dsNum := int64(r.DataShards)
 	return int((totalSize + dsNum - 1) / dsNum)
diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 0d31256..4ba17f6 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -2,8 +2,6 @@ package entity
 
 import (
 	"apiserver/config"
-	"common/cst"
-	"common/util/math"
 )
 
 type VerMode int32
@@ -107,10 +105,7 @@ func (b *Bucket) MakeConf(conf *config.ObjectConfig, objectSize int64) (cfg conf
 	case ECReedSolomon:
 		cfg.ReedSolomon.DataShards = b.DataShards
 		cfg.ReedSolomon.ParityShards = b.ParityShards
-		if i := cfg.ReedSolomon.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.ReedSolomon.BlockSize()-i+cst.OS.NetPkgSize, int(objectSize))
-			cfg.ReedSolomon.BlockPerShard = newSize / cfg.ReedSolomon.DataShards
-		}
+		cfg.ReedSolomon.AlignBlock(objectSize)
 	case MultiReplication:
 		cfg.Replication.CopiesCount = b.DataShards
 	}
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 1e4189b..76adda5 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -14,7 +14,6 @@ import (
 	"common/response"
 	"common/util"
 	"common/util/crypto"
-	"common/util/math"
 	"context"
 	"errors"
 	"fmt"
@@ -256,10 +255,7 @@ func NewStreamProvider(opt *StreamOption, ver *entity.Version) StreamProvider {
 		cfg.DataShards = ver.DataShards
 		cfg.ParityShards = ver.ParityShards
 		// aligned block size
-		if i := cfg.BlockSize() % cst.OS.NetPkgSize; i > 0 {
-			newSize := math.MinInt(cfg.BlockSize()-i+cst.OS.NetPkgSize, int(opt.Size))
-			cfg.BlockPerShard = newSize / cfg.DataShards
-		}
+		cfg.AlignBlock(opt.Size)
 		return RsStreamProvider(opt, &cfg)
 	case entity.MultiReplication:
 		cfg := pool.Config.Object.Replication
-- 
2.43.0


From e68507914c0694d8f114ba9a24cb533dffcb23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 24/64] fix: find and remove the paths of an object exactly in
 path-cache

---
 .../internal/db/object_path_cache.go          | 50 +++++++++++--------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/objectserver/internal/db/object_path_cache.go b/src/objectserver/internal/db/object_path_cache.go
index 6baabc0..f2809b3 100644
--- a/src/objectserver/internal/db/object_path_cache.go
+++ b/src/objectserver/internal/db/object_path_cache.go
@@ -38,17 +38,12 @@ func NewPathCache(storePath string) (*PathCache, error) {
 }
 
 func (pc *PathCache) get(txn *badger.Txn, key []byte) ([]byte, error) {
-	var res []byte
 	item, err := txn.Get(key)
 	if err == nil {
-		if err = item.Value(func(val []byte) error {
-			res = val
-			return nil
-		}); err != nil {
-			return nil, err
-		}
+		// value is only valid during transaction and must not be modified
+		return item.ValueCopy(nil)
 	}
-	return res, err
+	return nil, err
 }
 
 func (pc *PathCache) encodeValue(val []byte) []byte {
@@ -61,6 +56,21 @@ func (pc *PathCache) decodeValue(val []byte) []byte {
 	return bytes.ReplaceAll(val, SepEnc, Sep)
 }
 
+// removeElem removes all elements equal to elem from a value
+func (pc *PathCache) removeElem(val, elem []byte) (res []byte, ok bool) {
+	sp := bytes.Split(val, Sep)
+	remains := make([][]byte, 0, len(sp))
+	for _, b := range sp {
+		if bytes.Equal(b, elem) {
+			ok = true
+		} else if len(b) > 0 {
+			remains = append(remains, b)
+		}
+	}
+	return bytes.Join(remains, Sep), ok
+}
+
+// Put appends path as the last one of name
 func (pc *PathCache) Put(name, path string) error {
 	return pc.db.Update(func(txn *badger.Txn) error {
 		key := util.StrToBytes(name)
@@ -69,8 +79,7 @@ func (pc *PathCache) Put(name, path string) error {
 		if err != nil && err != badger.ErrKeyNotFound {
 			return err
 		}
-		// not use bytes.Join to avoid memory copy
-		if len(origin) > 0 {
+		if origin, _ = pc.removeElem(origin, value); len(origin) > 0 {
 			value = append(append(origin, Sep...), value...)
 		}
 		return txn.Set(key, value)
@@ -111,11 +120,13 @@ func (pc *PathCache) GetLast(name string) (string, error) {
 		if err != nil {
 			return err
 		}
-		if idx := bytes.LastIndexByte(value, Sep[0]); idx > 0 {
-			res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
-			return nil
+		if len(value) == 0 {
+			return badger.ErrKeyNotFound
 		}
-		return badger.ErrKeyNotFound
+		// if there is only one path, idx is -1
+		idx := bytes.LastIndexByte(value, Sep[0])
+		res = util.BytesToStr(pc.decodeValue(value[idx+1:]))
+		return nil
 	})
 	if err == badger.ErrKeyNotFound {
 		err = os.ErrNotExist
@@ -130,17 +141,14 @@ func (pc *PathCache) Remove(name, path string) error {
 		if err != nil {
 			return err
 		}
-		before, after, ok := bytes.Cut(val, pc.encodeValue(util.StrToBytes(path)))
+		val, ok := pc.removeElem(val, pc.encodeValue(util.StrToBytes(path)))
 		if !ok {
 			return badger.ErrKeyNotFound
 		}
-		before = bytes.TrimSuffix(before, Sep)
-		after = bytes.TrimPrefix(after, Sep)
-		// not use bytes.Join to avoid memory allocating and copy
-		if len(before) > 0 {
-			after = append(append(before, Sep...), after...)
+		if len(val) == 0 {
+			return txn.Delete(key)
 		}
-		return txn.Set(key, after)
+		return txn.Set(key, val)
 	})
 	if err == badger.ErrKeyNotFound {
 		err = nil
-- 
2.43.0


From 0545b7ba2ea549381770b9da6e514bf3c89ded0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 25/64] fix: do not trust the mark of an object whose file is
 gone

---
 .../controller/http/objects/objects_cache.go  |  6 ++
 .../usecase/service/objects_service.go        | 59 ++++++++-----------
 2 files changed, 32 insertions(+), 33 deletions(-)

diff --git a/src/objectserver/internal/controller/http/objects/objects_cache.go b/src/objectserver/internal/controller/http/objects/objects_cache.go
index 16e1dca..7d62106 100644
--- a/src/objectserver/internal/controller/http/objects/objects_cache.go
+++ b/src/objectserver/internal/controller/http/objects/objects_cache.go
@@ -5,6 +5,7 @@ import (
 	"common/util"
 	"net/http"
 	"objectserver/internal/usecase/pool"
+	"objectserver/internal/usecase/service"
 
 	"github.com/gin-gonic/gin"
 )
@@ -17,6 +18,11 @@ func GetFromCache(g *gin.Context) {
 	}
 	name := req.Name
 	if bt, ok := pool.Cache.HasGet(name); ok && int64(len(bt)) == req.Size && offset <= req.Size {
+		if !service.Exist(name) {
+			// object has been removed or lost
+			pool.Cache.Delete(name)
+			return
+		}
 		bt = bt[offset:]
 		g.Header("Content-Length", util.IntString(len(bt)))
 		if _, e := g.Writer.Write(bt); e != nil {
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index bc11c20..4a1d4dd 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -23,42 +23,32 @@ const (
 	LocateKeyPrefix = "LocateCache#"
 )
 
-// Exist check if the object exists. pass to ExistPath
+// Exist check if the file of object exists. the mark of an object is only valid as long as its file is there.
 func Exist(name string) bool {
-	if global.Cache.Has(LocateKeyPrefix+name) || global.Cache.Has(name) {
-		return true
-	}
-	realPath, ok := FindRealStoragePath(name)
-	if !ok {
-		return false
-	}
-	if ExistPath(realPath) {
-		MarkExist(name)
-		return true
-	} else {
-		// remove this no existed path from path-db
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Remove(name, realPath))
-		}()
+	if _, ok := FindRealStoragePath(name); !ok {
+		UnMarkExist(name)
 		return false
 	}
+	MarkExist(name)
+	return true
 }
 
 // FindRealStoragePath find storage path with real mount point of this file
 func FindRealStoragePath(fileName string) (string, bool) {
-	path, err := global.PathDB.GetLast(fileName)
+	cached, err := global.PathDB.GetLast(fileName)
+	if err == nil && ExistPath(cached) {
+		return cached, true
+	}
+	if err == nil {
+		// remove this no existed path from path-db
+		util.LogErr(global.PathDB.Remove(fileName, cached))
+	}
+	path, err := global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
 	if err != nil {
-		path, err = global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
-		if err != nil {
-			return "", false
-		}
-		// save path to path-cache
-		go func() {
-			defer graceful.Recover()
-			util.LogErr(global.PathDB.Put(fileName, path))
-		}()
+		return "", false
 	}
+	// save path to path-cache
+	util.LogErr(global.PathDB.Put(fileName, path))
 	return path, true
 }
 
@@ -70,7 +60,9 @@ func ExistPath(fullPath string) bool {
 
 // MarkExist save object mark into cache
 func MarkExist(name string) {
-	global.Cache.Set(LocateKeyPrefix+name, []byte{})
+	if !global.Cache.Has(LocateKeyPrefix + name) {
+		global.Cache.Set(LocateKeyPrefix+name, []byte{})
+	}
 }
 
 // UnMarkExist remove object mark from cache
@@ -107,11 +99,11 @@ func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
 
 // Get read object to writer with provided size. pass to GetFile
 func Get(name string, offset, size int64, compress bool, writer io.Writer) (err error) {
-	if !Exist(name) {
+	fullPath, ok := FindRealStoragePath(name)
+	if !ok {
+		UnMarkExist(name)
 		return response.NewError(404, "object not found")
 	}
-
-	fullPath, _ := FindRealStoragePath(name)
 	if compress {
 		err = GetFileCompress(fullPath, offset, size, writer)
 	} else {
@@ -161,10 +153,11 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 
 // Delete remove the object under the storage path
 func Delete(name string) error {
-	if !Exist(name) {
+	fullPath, ok := FindRealStoragePath(name)
+	if !ok {
+		UnMarkExist(name)
 		return nil
 	}
-	fullPath, _ := FindRealStoragePath(name)
 	size, err := DeleteFile(fullPath, "")
 	if err != nil {
 		return err
-- 
2.43.0


From d4224ee164bb6e8084679d6688c57ed7bdf4800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 26/64] fix: publish objects only after they are complete and
 on disk

---
 .../usecase/service/objects_service.go        | 115 +++++++++++-------
 1 file changed, 73 insertions(+), 42 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 4a1d4dd..31cdb20 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -78,23 +78,55 @@ func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
 
 	mp := global.DriverManager.SelectMountPointFallback(global.Config.BaseMountPoint)
 	fullPath := filepath.Join(mp, global.Config.StoragePath, fileName)
+	// an object which is incomplete should never be seen
+	tempPath := filepath.Join(mp, global.Config.TempPath, GenerateTempID())
+	defer func() {
+		if err != nil {
+			_ = os.Remove(tempPath)
+		}
+	}()
 
-	var size int64
 	if compress {
-		size, err = WriteFileCompress(fullPath, fileStream)
+		_, err = WriteFileCompress(tempPath, fileStream)
 	} else {
-		size, err = WriteFile(fullPath, fileStream)
+		_, err = WriteFile(tempPath, fileStream)
 	}
 	if err != nil {
 		return
 	}
-	go func() {
-		defer graceful.Recover()
-		global.ObjectCap.AddCap(size)
-		util.LogErr(global.PathDB.Put(fileName, fullPath))
-		MarkExist(fileName)
-	}()
-	return
+	return publishFile(tempPath, fullPath, fileName)
+}
+
+// publishFile move a completed file to the path of object. the object survives power loss after returning.
+func publishFile(tempPath, fullPath, fileName string) error {
+	size, err := syncFile(tempPath)
+	if err != nil {
+		return err
+	}
+	if err = os.Rename(tempPath, fullPath); err != nil {
+		return err
+	}
+	if _, err = syncFile(filepath.Dir(fullPath)); err != nil {
+		return err
+	}
+	global.ObjectCap.AddCap(size)
+	util.LogErr(global.PathDB.Put(fileName, fullPath))
+	MarkExist(fileName)
+	return nil
+}
+
+// syncFile flush the file or directory to disk, returns size of it
+func syncFile(path string) (int64, error) {
+	file, err := os.Open(path)
+	if err != nil {
+		return 0, err
+	}
+	defer file.Close()
+	info, err := file.Stat()
+	if err != nil {
+		return 0, err
+	}
+	return info.Size(), file.Sync()
 }
 
 // Get read object to writer with provided size. pass to GetFile
@@ -291,44 +323,43 @@ func WriteFileCompress(fullPath string, fileStream io.Reader) (int64, error) {
 }
 
 // CommitFile move the temp file to storage path with a new name
-func CommitFile(mountPoint, tmpName, fileName string, compress bool) error {
-	filePath := filepath.Join(mountPoint, global.Config.StoragePath, fileName)
-	tempPath := filepath.Join(mountPoint, global.Config.TempPath, tmpName)
-	if ExistPath(filePath) {
+func CommitFile(mountPoint, tmpName, fileName string, compress bool) (err error) {
+	if Exist(fileName) {
 		return nil
 	}
+	filePath := filepath.Join(mountPoint, global.Config.StoragePath, fileName)
+	tempPath := filepath.Join(mountPoint, global.Config.TempPath, tmpName)
 	if compress {
-		tmp, err := os.Open(tempPath)
-		if err != nil {
-			if os.IsNotExist(err) {
-				return response.NewError(404, "object not found")
+		// an object which is incomplete should never be seen
+		compressedPath := filepath.Join(mountPoint, global.Config.TempPath, GenerateTempID())
+		defer func() {
+			if err != nil {
+				_ = os.Remove(compressedPath)
 			}
-			return err
-		}
-		defer util.CloseAndLog(tmp)
-		tmpStat, err := tmp.Stat()
-		if err != nil {
-			return err
+		}()
+		if err = compressFile(tempPath, compressedPath); err == nil {
+			err = publishFile(compressedPath, filePath, fileName)
 		}
-		bufSize := math.MinInt(4*datasize.MB.Int(), int(tmpStat.Size()))
-		_, err = AppendFileCompress(filePath, tmp, bufSize)
-		return err
 	} else {
-		if err := os.Rename(tempPath, filePath); err != nil {
-			if os.IsNotExist(err) {
-				return response.NewError(404, "object not found")
-			}
-			return err
-		}
+		err = publishFile(tempPath, filePath, fileName)
+	}
+	if os.IsNotExist(err) {
+		return response.NewError(404, "object not found")
 	}
+	return err
+}
 
-	go func() {
-		defer graceful.Recover()
-		if info, err := os.Stat(filePath); err == nil {
-			global.ObjectCap.AddCap(info.Size())
-			util.LogErr(global.PathDB.Put(fileName, filePath))
-			MarkExist(fileName)
-		}
-	}()
-	return nil
+func compressFile(srcPath, dstPath string) error {
+	src, err := os.Open(srcPath)
+	if err != nil {
+		return err
+	}
+	defer util.CloseAndLog(src)
+	info, err := src.Stat()
+	if err != nil {
+		return err
+	}
+	bufSize := math.MinInt(4*datasize.MB.Int(), int(info.Size()))
+	_, err = AppendFileCompress(dstPath, src, bufSize)
+	return err
 }
-- 
2.43.0


From 2b3d22d8745de45e27986c48877b45abc5a9a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 27/64] fix: keep capacity, cache and marks in step with the
 files of objects

---
 .../controller/http/objects/objects_rest.go    |  3 ++-
 .../internal/usecase/service/common.go         |  2 +-
 .../usecase/service/objects_service.go         | 18 +++++++++---------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 37d93f0..999f2cf 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -52,8 +52,9 @@ func Put(c *gin.Context) {
 
 func Delete(c *gin.Context) {
 	name := c.Param("name")
+	err := service.Delete(name)
 	pool.Cache.Delete(name)
-	if err := service.Delete(name); err != nil {
+	if err != nil {
 		response.FailErr(err, c)
 		return
 	}
diff --git a/src/objectserver/internal/usecase/service/common.go b/src/objectserver/internal/usecase/service/common.go
index 88fc5c6..1180fef 100644
--- a/src/objectserver/internal/usecase/service/common.go
+++ b/src/objectserver/internal/usecase/service/common.go
@@ -21,8 +21,8 @@ func WarmUpLocateCache() {
 			if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
 				return nil
 			}
-			pool.ObjectCap.AddCap(info.Size())
 			if !info.IsDir() {
+				pool.ObjectCap.AddCap(info.Size())
 				MarkExist(fileName)
 			}
 			return nil
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 31cdb20..edaceb4 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"common/cst"
 	"common/datasize"
-	"common/graceful"
 	"common/logs"
 	"common/response"
 	"common/system/disk"
@@ -194,26 +193,27 @@ func Delete(name string) error {
 	if err != nil {
 		return err
 	}
-	go func() {
-		defer graceful.Recover()
-		global.ObjectCap.SubCap(size)
-		util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
-		UnMarkExist(name)
-	}()
+	global.ObjectCap.SubCap(size)
+	util.LogErrWithPre("path-db remove", global.PathDB.Remove(name, fullPath))
+	UnMarkExist(name)
 	return nil
 }
 
 // DeleteFile will remove the file under the path. if file not exist, it will do nothing.
 func DeleteFile(path, name string) (int64, error) {
 	pt := filepath.Join(path, name)
-	info, err := os.Stat(path)
+	info, err := os.Stat(pt)
 	if os.IsNotExist(err) {
 		return 0, nil
 	}
 	if err != nil {
 		return 0, err
 	}
-	if err = os.Remove(pt); err != nil && !os.IsNotExist(err) {
+	if err = os.Remove(pt); os.IsNotExist(err) {
+		// removed by someone else
+		return 0, nil
+	}
+	if err != nil {
 		return 0, err
 	}
 	return info.Size(), nil
-- 
2.43.0


From 4c3f79aeba551618418df52cd76257062f5025eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 28/64] fix: remove the files of temp objects

---
 .../internal/controller/http/temp/temp_rest.go           | 7 +++++++
 src/objectserver/internal/usecase/service/common.go      | 9 ++++++---
 .../internal/usecase/service/temp_service.go             | 3 ++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/objectserver/internal/controller/http/temp/temp_rest.go b/src/objectserver/internal/controller/http/temp/temp_rest.go
index 5766d9e..3c483d8 100644
--- a/src/objectserver/internal/controller/http/temp/temp_rest.go
+++ b/src/objectserver/internal/controller/http/temp/temp_rest.go
@@ -30,6 +30,13 @@ func Patch(g *gin.Context) {
 		response.FailErr(err, g)
 		return
 	}
+	if _, ok = service.GetTempInfo(id); !ok {
+		// removed or expired while writing. nobody else will remove the file
+		_, err := service.DeleteFile(filepath.Dir(ti.FullPath), ti.Id)
+		util.LogErr(err)
+		response.BadRequestMsg("file has been removed", g)
+		return
+	}
 	response.Ok(g)
 }
 
diff --git a/src/objectserver/internal/usecase/service/common.go b/src/objectserver/internal/usecase/service/common.go
index 1180fef..1f80bc8 100644
--- a/src/objectserver/internal/usecase/service/common.go
+++ b/src/objectserver/internal/usecase/service/common.go
@@ -2,23 +2,26 @@ package service
 
 import (
 	"common/logs"
+	"common/util"
 	"io/fs"
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
+	"os"
 	"path/filepath"
 	"strings"
 )
 
-// WarmUpLocateCache walk all objects under the storage path and save marks to cache
+// WarmUpLocateCache walk all objects under the storage path and save marks to cache. temp files left behind will be removed.
 func WarmUpLocateCache() {
 	for _, mp := range pool.DriverManager.GetAllMountPoint() {
-		err := filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(_ string, info fs.FileInfo, err error) error {
+		err := filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(path string, info fs.FileInfo, err error) error {
 			if err != nil {
 				return err
 			}
 			fileName := info.Name()
-			// skip temp file
+			// temp files never outlive the process which created them
 			if strings.HasPrefix(fileName, entity.TempKeyPrefix) {
+				util.LogErrWithPre("remove temp file", os.Remove(path))
 				return nil
 			}
 			if !info.IsDir() {
diff --git a/src/objectserver/internal/usecase/service/temp_service.go b/src/objectserver/internal/usecase/service/temp_service.go
index d40e0da..e0ff56c 100644
--- a/src/objectserver/internal/usecase/service/temp_service.go
+++ b/src/objectserver/internal/usecase/service/temp_service.go
@@ -10,6 +10,7 @@ import (
 	"github.com/google/uuid"
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
+	"path/filepath"
 	"strings"
 )
 
@@ -45,7 +46,7 @@ func StartTempRemovalBackground(cache cache.ICache, threadNum int) func() {
 				if strings.HasPrefix(entry.Key, entity.TempKeyPrefix) {
 					var ti entity.TempInfo
 					if ok := util.GobDecode(entry.Value, &ti); ok {
-						if _, err := DeleteFile(pool.Config.TempPath, ti.Id); err != nil {
+						if _, err := DeleteFile(filepath.Dir(ti.FullPath), ti.Id); err != nil {
 							logger.Errorf("remove temp %v(name=%v) error, %v", ti.Id, ti.Name, err)
 							break
 						}
-- 
2.43.0


From 89c34286b9172b99978c4bd75afa6a56495fd305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 29/64] fix: roll back the part written by a failed append

---
 .../internal/usecase/service/objects_service.go      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index edaceb4..c44b835 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -266,7 +266,17 @@ func AppendFileAligned(fullPath string, fileStream io.Reader, bufSize int) (int6
 		return 0, err
 	}
 	defer file.Close()
-	return io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
+	info, err := file.Stat()
+	if err != nil {
+		return 0, err
+	}
+	n, err := io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
+	if err != nil {
+		// never leave a part of data
+		util.LogErr(file.Truncate(info.Size()))
+		return 0, err
+	}
+	return n, nil
 }
 
 // WriteFile will append data to file and work with DIO. make sure size of each write is a multiple of 4096 (except last)
-- 
2.43.0


From 456cdd1dae42eb76d05c1e9b3c6e184956647a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 30/64] fix: do not store a compressed object which is cut off

---
 src/objectserver/internal/usecase/service/objects_service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index c44b835..82488d9 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -320,7 +320,8 @@ func AppendFileCompress(fullPath string, fileStream io.Reader, bufSize int) (int
 	defer file.Close()
 	blockSize := math.MinInt(2*datasize.MB.Int(), math.MaxInt(bufSize, 4*datasize.KB.Int()))
 	wt := s2.NewWriter(file, s2.WriterBetterCompression(), s2.WriterBlockSize(blockSize))
-	n, err := io.CopyBuffer(wt, fileStream, make([]byte, bufSize))
+	// wt.ReadFrom() takes io.ErrUnexpectedEOF for the end of data, hide it
+	n, err := io.CopyBuffer(struct{ io.Writer }{wt}, fileStream, make([]byte, bufSize))
 	if err != nil {
 		return n, err
 	}
-- 
2.43.0


From 21956f07e8bc78fa7daa70a6b41c7c69de1812d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 31/64] fix: count objects as soon as they are visible

---
 .../internal/usecase/service/objects_service.go             | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 82488d9..b43021a 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -105,13 +105,11 @@ func publishFile(tempPath, fullPath, fileName string) error {
 	if err = os.Rename(tempPath, fullPath); err != nil {
 		return err
 	}
-	if _, err = syncFile(filepath.Dir(fullPath)); err != nil {
-		return err
-	}
 	global.ObjectCap.AddCap(size)
 	util.LogErr(global.PathDB.Put(fileName, fullPath))
 	MarkExist(fileName)
-	return nil
+	_, err = syncFile(filepath.Dir(fullPath))
+	return err
 }
 
 // syncFile flush the file or directory to disk, returns size of it
-- 
2.43.0


From 26bce0a16ab5ed66fee8e691fa4aeebffa8931f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 32/64] fix: do not append an error message to a part of a temp
 object

---
 .../internal/controller/http/temp/temp_rest.go           | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/objectserver/internal/controller/http/temp/temp_rest.go b/src/objectserver/internal/controller/http/temp/temp_rest.go
index 3c483d8..8b27cac 100644
--- a/src/objectserver/internal/controller/http/temp/temp_rest.go
+++ b/src/objectserver/internal/controller/http/temp/temp_rest.go
@@ -2,6 +2,7 @@ package temp
 
 import (
 	"common/cst"
+	"common/logs"
 	"common/response"
 	"common/util"
 	xmath "common/util/math"
@@ -127,7 +128,15 @@ func Get(g *gin.Context) {
 		response.BadRequestMsg("file has been removed", g)
 		return
 	}
+	// with content-length, client is able to find out that response is incomplete
+	g.Header("Content-Length", util.IntString(req.Size))
 	if err := service.GetFile(ti.FullPath, 0, req.Size, g.Writer); err != nil {
+		if g.Writer.Written() {
+			// part of object has been sent, nothing else can follow it
+			logs.Std().Errorf("get temp object %s err: %s", req.Name, err)
+			return
+		}
+		g.Writer.Header().Del("Content-Length")
 		response.FailErr(err, g)
 		return
 	}
-- 
2.43.0


From 22d6ef6710c9f0a35047f35bc28835f79456d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 33/64] fix: update and remove versions with their number and
 resolve the errors

---
 src/apiserver/internal/usecase/grpcapi/base.go        | 6 +-----
 src/apiserver/internal/usecase/grpcapi/meta_server.go | 3 ++-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/apiserver/internal/usecase/grpcapi/base.go b/src/apiserver/internal/usecase/grpcapi/base.go
index e731558..24e71b7 100644
--- a/src/apiserver/internal/usecase/grpcapi/base.go
+++ b/src/apiserver/internal/usecase/grpcapi/base.go
@@ -15,13 +15,9 @@ var (
 )
 
 func getConn(addr string) (*grpc.ClientConn, error) {
-	conn, ok := connPool[addr]
-	if ok {
-		return conn, nil
-	}
 	poolLock.Lock()
 	defer poolLock.Unlock()
-	conn, ok = connPool[addr]
+	conn, ok := connPool[addr]
 	if ok {
 		return conn, nil
 	}
diff --git a/src/apiserver/internal/usecase/grpcapi/meta_server.go b/src/apiserver/internal/usecase/grpcapi/meta_server.go
index 0a16c4a..f1c6129 100644
--- a/src/apiserver/internal/usecase/grpcapi/meta_server.go
+++ b/src/apiserver/internal/usecase/grpcapi/meta_server.go
@@ -136,6 +136,7 @@ func UpdateVersion(ip, id string, body *entity.Version) error {
 	})
 	_, err = pb.NewMetadataApiClient(conn).UpdateVersion(context.Background(), &pb.Metadata{
 		Id:      id,
+		Version: body.Sequence,
 		Msgpack: bt,
 	})
 	return proto.ResolveErr(err)
@@ -238,5 +239,5 @@ func RemoveVersion(ip, id string, version int32) error {
 		return err
 	}
 	_, err = pb.NewMetadataApiClient(conn).RemoveVersion(context.Background(), &pb.MetaReq{Id: id, Version: version})
-	return err
+	return proto.ResolveErr(err)
 }
-- 
2.43.0


From d8dd6d439a235779b6832d52a8f9d886fa3a3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 34/64] fix: read objects exactly while shards or copies are
 lost, and repair them in order

---
 .../internal/controller/http/objects_api.go   |  23 ++-
 .../usecase/componet/selector/selectors.go    |  18 ++
 .../internal/usecase/logic/discovery_logic.go |   5 +
 .../usecase/service/copy_fix_stream.go        |  93 +++++-----
 .../usecase/service/copy_get_stream.go        | 141 +++++++++++----
 .../internal/usecase/service/get_stream.go    |   1 +
 .../internal/usecase/service/rs_decoder.go    |  68 ++++----
 .../internal/usecase/service/rs_get_stream.go | 164 ++++++++++++------
 .../usecase/service/rs_rewrite_stream.go      |  54 ++++++
 .../internal/usecase/service/temp_stream.go   |   1 +
 10 files changed, 386 insertions(+), 182 deletions(-)
 create mode 100644 src/apiserver/internal/usecase/service/rs_rewrite_stream.go

diff --git a/src/apiserver/internal/controller/http/objects_api.go b/src/apiserver/internal/controller/http/objects_api.go
index 1bd1801..e0e8610 100644
--- a/src/apiserver/internal/controller/http/objects_api.go
+++ b/src/apiserver/internal/controller/http/objects_api.go
@@ -74,23 +74,30 @@ func (oc *ObjectsController) Get(c *gin.Context) {
 		return
 	}
 	defer util.CloseAndLog(stream)
+	size := metaData.Versions[0].Size
 	// try seek
 	if tp, ok := req.Range.GetFirstBytes(); ok {
-		if _, err = stream.Seek(tp.First, io.SeekCurrent); err != nil {
+		pos, err := stream.Seek(tp.First, io.SeekCurrent)
+		if err != nil {
 			response.FailErr(err, c)
 			return
 		}
+		size -= pos
 	}
+	// headers must be set before copying. with content-length, client is able to find out that response is incomplete
+	c.Header("Accept-Ranges", "bytes")
+	c.Header("Content-Length", util.IntString(size))
 	// copy to response
-	n, err := io.Copy(c.Writer, stream)
-	if err != nil {
-		logs.Std().Error(err)
+	if _, err = io.Copy(c.Writer, stream); err != nil {
+		if c.Writer.Written() {
+			logs.Std().Error(err)
+			return
+		}
+		c.Writer.Header().Del("Content-Length")
+		response.FailErr(err, c)
 		return
 	}
-	response.OkHeader(gin.H{
-		"Accept-Ranges":  "bytes",
-		"Content-Length": n,
-	}, c)
+	response.Ok(c)
 }
 
 func (oc *ObjectsController) ValidatePut(g *gin.Context) {
diff --git a/src/apiserver/internal/usecase/componet/selector/selectors.go b/src/apiserver/internal/usecase/componet/selector/selectors.go
index 1666c2a..c5b0028 100644
--- a/src/apiserver/internal/usecase/componet/selector/selectors.go
+++ b/src/apiserver/internal/usecase/componet/selector/selectors.go
@@ -1,6 +1,7 @@
 package selector
 
 import (
+	"common/util/slices"
 	"log"
 	"strings"
 )
@@ -44,6 +45,20 @@ func NewIPSelector(selector Selector, ips []string) *IPSelector {
 	return &IPSelector{Selector: selector, IPs: ips, used: make([]string, 0, len(ips))}
 }
 
+// NewIPSelectorExclude the excluded ones are seen as used
+func NewIPSelectorExclude(selector Selector, ips []string, excludes []string) *IPSelector {
+	res := NewIPSelector(selector, nil)
+	for _, ip := range ips {
+		if slices.Search(excludes, ip) >= 0 {
+			res.used = append(res.used, ip)
+		} else {
+			res.IPs = append(res.IPs, ip)
+		}
+	}
+	return res
+}
+
+// Select returns empty string if there are no IPs
 func (i *IPSelector) Select() string {
 	if i.used == nil {
 		i.used = make([]string, 0, len(i.IPs))
@@ -51,6 +66,9 @@ func (i *IPSelector) Select() string {
 	if len(i.IPs) == 0 {
 		i.used, i.IPs = i.IPs, i.used
 	}
+	if len(i.IPs) == 0 {
+		return ""
+	}
 	var ip string
 	i.IPs, ip = i.Selector.Pop(i.IPs)
 	i.used = append(i.used, ip)
diff --git a/src/apiserver/internal/usecase/logic/discovery_logic.go b/src/apiserver/internal/usecase/logic/discovery_logic.go
index b112cb1..4ad796c 100644
--- a/src/apiserver/internal/usecase/logic/discovery_logic.go
+++ b/src/apiserver/internal/usecase/logic/discovery_logic.go
@@ -92,3 +92,8 @@ func (Discovery) NewIPSelector(ips []string) selector.IPSelector {
 func (d Discovery) NewDataServSelector() selector.IPSelector {
 	return d.NewIPSelector(d.GetDataServers())
 }
+
+// NewDataServSelectorExclude select the excluded ones only if there are no others
+func (d Discovery) NewDataServSelectorExclude(excludes []string) *selector.IPSelector {
+	return selector.NewIPSelectorExclude(pool.Balancer, d.GetDataServers(), excludes)
+}
diff --git a/src/apiserver/internal/usecase/service/copy_fix_stream.go b/src/apiserver/internal/usecase/service/copy_fix_stream.go
index f72fb47..601ba6c 100644
--- a/src/apiserver/internal/usecase/service/copy_fix_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_fix_stream.go
@@ -4,31 +4,29 @@ import (
 	"apiserver/config"
 	"apiserver/internal/usecase/webapi"
 	"bytes"
-	"common/collection/set"
 	"common/graceful"
 	"common/util"
 	"errors"
 	"fmt"
-	"strings"
+	"sync"
 )
 
 type CopyFixStream struct {
-	fileNames []string
-	locates   []string
-	compress  bool
-	buffer    *bytes.Buffer
-	rpConfig  *config.ReplicationConfig
-	Updater   LocatesUpdater
+	lost     []int
+	locates  []string
+	buffer   *bytes.Buffer
+	rpConfig *config.ReplicationConfig
+	opt      *StreamOption
 }
 
-func NewCopyFixStream(lostNames []string, newLocates []string, opt *StreamOption, cfg *config.ReplicationConfig) (*CopyFixStream, error) {
+// NewCopyFixStream stores the copies of lost indexes to newLocates when it is closed
+func NewCopyFixStream(lost []int, newLocates []string, opt *StreamOption, cfg *config.ReplicationConfig) (*CopyFixStream, error) {
 	return &CopyFixStream{
-		fileNames: lostNames,
-		locates:   newLocates,
-		rpConfig:  cfg,
-		compress:  opt.Compress,
-		buffer:    bytes.NewBuffer(make([]byte, 0, opt.Size)),
-		Updater:   opt.Updater,
+		lost:     lost,
+		locates:  newLocates,
+		rpConfig: cfg,
+		buffer:   bytes.NewBuffer(make([]byte, 0, opt.Size)),
+		opt:      opt,
 	}, nil
 }
 
@@ -37,47 +35,46 @@ func (c *CopyFixStream) Write(bt []byte) (int, error) {
 }
 
 func (c *CopyFixStream) Close() error {
-	wait := c.startFix()
 	if c.rpConfig.CopyAsync {
 		go func() {
 			defer graceful.Recover()
-			util.LogErrWithPre("copy-fix-stream", wait())
+			util.LogErrWithPre("copy-fix-stream", c.fix())
 		}()
 		return nil
 	}
-	return wait()
+	return c.fix()
 }
 
-func (c *CopyFixStream) startFix() func() error {
-	dg := util.NewDoneGroup()
-	dg.Todo()
-	go func() {
-		defer dg.Done()
-		data := c.buffer.Bytes()
-		errs := set.NewWriteSyncSet()
-		wg := util.NewWaitGroup()
-		for idx, name := range c.fileNames {
-			wg.Todo()
-			go func(i int, key string) {
-				defer wg.Done()
-				if err := webapi.PutObject(c.locates[i], key, c.compress, bytes.NewBuffer(data)); err != nil {
-					errs.Add(fmt.Sprintf("fix %s put-api err: %w", key, err))
-				}
-			}(idx, name)
-		}
-		wg.Wait()
-		if errs.Size() > 0 {
-			dg.Error(errors.New(strings.Join(set.To[string](errs), ";")))
-			return
-		}
-		if c.Updater == nil {
-			dg.Error(errors.New("locates updater required but nil"))
-			return
+func (c *CopyFixStream) fix() error {
+	var wg sync.WaitGroup
+	data := c.buffer.Bytes()
+	errs := make([]error, len(c.lost))
+	for i, copyIdx := range c.lost {
+		wg.Add(1)
+		go func(i int, key string) {
+			defer graceful.Recover()
+			defer wg.Done()
+			if err := webapi.PutObject(c.locates[i], key, c.opt.Compress, bytes.NewReader(data)); err != nil {
+				errs[i] = fmt.Errorf("fix %s put-api err: %w", key, err)
+			}
+		}(i, copyName(c.opt.Hash, copyIdx))
+	}
+	wg.Wait()
+	// update locates of the fixed ones only
+	locates := append([]string{}, c.opt.Locates...)
+	var needUpdate bool
+	for i, copyIdx := range c.lost {
+		if errs[i] == nil {
+			locates[copyIdx] = c.locates[i]
+			needUpdate = true
 		}
-		if err := c.Updater(c.locates); err != nil {
-			dg.Error(err)
-			return
+	}
+	if needUpdate {
+		if c.opt.Updater == nil {
+			errs = append(errs, errors.New("locates updater required but nil"))
+		} else {
+			errs = append(errs, c.opt.Updater(locates))
 		}
-	}()
-	return dg.WaitUntilError
+	}
+	return errors.Join(errs...)
 }
diff --git a/src/apiserver/internal/usecase/service/copy_get_stream.go b/src/apiserver/internal/usecase/service/copy_get_stream.go
index 894178e..87b9c62 100644
--- a/src/apiserver/internal/usecase/service/copy_get_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_get_stream.go
@@ -2,65 +2,136 @@ package service
 
 import (
 	"apiserver/config"
+	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/logic"
+	"common/logs"
 	"common/util"
 	"fmt"
 	"io"
 )
 
+// CopyGetStream reads the first available copy. Continue with the next one if it is broken while reading.
 type CopyGetStream struct {
-	reader io.ReadSeekCloser
-	writer io.WriteCloser
+	opt    *StreamOption
+	idx    int // idx is the index of the copy being read
+	pos    int64
+	reader *GetStream
+	writer *CopyFixStream
 }
 
 func NewCopyGetStream(opt *StreamOption, rpCfg *config.ReplicationConfig) (*CopyGetStream, error) {
-	var getStream io.ReadSeekCloser
-	var err error
-	var failIds, newLocates []string
-	lb := logic.NewDiscovery().NewDataServSelector()
-	for idx, loc := range opt.Locates {
-		id := fmt.Sprint(opt.Hash, ".", idx)
-		getStream, err = NewGetStream(loc, id, opt.Size, opt.Compress)
-		if err == nil {
-			break
-		}
-		failIds = append(failIds, id)
-		opt.Locates[idx] = lb.Select()
-		newLocates = append(newLocates, opt.Locates[idx])
+	stream := &CopyGetStream{opt: opt, idx: -1}
+	if err := stream.next(); err != nil {
+		logs.Std().Errorf("not found any copies of %s: %s", opt.Hash, err)
+		return nil, usecase.ErrServiceUnavailable
 	}
-	if len(failIds) == len(opt.Locates) {
-		return nil, fmt.Errorf("not found any copies of %s", opt.Hash)
-	}
-	var fixStream io.WriteCloser
-	if len(failIds) > rpCfg.ToleranceLossNum() {
-		fixStream, err = NewCopyFixStream(failIds, newLocates, opt, rpCfg)
+	// copies before idx are lost
+	if lost := stream.idx; lost > rpCfg.ToleranceLossNum() {
+		lb := logic.NewDiscovery().NewDataServSelectorExclude(opt.Locates[lost:])
+		var lostIdx []int
+		var newLocates []string
+		for i := 0; i < lost; i++ {
+			if ip := lb.Select(); ip != "" {
+				lostIdx = append(lostIdx, i)
+				newLocates = append(newLocates, ip)
+			}
+		}
+		var err error
+		stream.writer, err = NewCopyFixStream(lostIdx, newLocates, opt, rpCfg)
 		util.LogErrWithPre("fix copies err", err)
 	}
-	return &CopyGetStream{
-		reader: getStream,
-		writer: fixStream,
-	}, nil
+	return stream, nil
+}
+
+func copyName(hash string, idx int) string {
+	return fmt.Sprint(hash, ".", idx)
+}
+
+// next switches to the next available copy
+func (c *CopyGetStream) next() error {
+	err := io.ErrUnexpectedEOF
+	for c.idx++; c.idx < len(c.opt.Locates); c.idx++ {
+		var stream *GetStream
+		name := copyName(c.opt.Hash, c.idx)
+		if stream, err = NewGetStream(c.opt.Locates[c.idx], name, c.opt.Size, c.opt.Compress); err != nil {
+			logs.Std().Errorf("copy %s is lost: %s", name, err)
+			continue
+		}
+		if c.pos > 0 {
+			if _, err = stream.Seek(c.pos, io.SeekStart); err != nil {
+				logs.Std().Errorf("copy %s is broken: %s", name, err)
+				continue
+			}
+		}
+		c.reader = stream
+		return nil
+	}
+	return err
 }
 
 func (c *CopyGetStream) Read(p []byte) (n int, err error) {
-	n, err = c.reader.Read(p)
-	if c.writer != nil && n > 0 {
-		if n, err = c.writer.Write(p[:n]); err != nil {
-			return
+	if c.pos >= c.opt.Size {
+		return 0, io.EOF
+	}
+	if int64(len(p)) > c.opt.Size-c.pos {
+		p = p[:c.opt.Size-c.pos]
+	}
+	for {
+		n, err = c.reader.Read(p)
+		if n > 0 || err == nil {
+			break
+		}
+		// it's broken even if err is io.EOF since there must be more data
+		logs.Std().Errorf("read copy %d of %s err: %s", c.idx, c.opt.Hash, err)
+		_ = c.reader.Close()
+		if inner := c.next(); inner != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return 0, err
 		}
 	}
-	return
+	if c.writer != nil {
+		_, _ = c.writer.Write(p[:n])
+	}
+	c.pos += int64(n)
+	return n, nil
 }
 
 func (c *CopyGetStream) Seek(offset int64, whence int) (int64, error) {
-	return c.reader.Seek(offset, whence)
+	if offset < 0 {
+		return 0, fmt.Errorf("copy get stream only supports forward seek offest")
+	}
+	if whence != io.SeekCurrent {
+		logs.Std().Warn("copy get stream only supports seek whence io.SeekCurrent")
+	}
+	// lost copies can't be fixed without reading the whole, neither skips what has been read
+	if c.writer != nil || c.pos > 0 {
+		_, err := io.CopyN(io.Discard, c, offset)
+		if err != nil && err != io.EOF {
+			return 0, err
+		}
+		return c.pos, nil
+	}
+	if offset > c.opt.Size {
+		offset = c.opt.Size
+	}
+	c.pos = offset
+	if c.pos == 0 || c.pos == c.opt.Size {
+		return c.pos, nil
+	}
+	if _, err := c.reader.Seek(offset, io.SeekStart); err != nil {
+		logs.Std().Errorf("copy %d of %s is broken: %s", c.idx, c.opt.Hash, err)
+		if c.next() != nil {
+			return 0, err
+		}
+	}
+	return c.pos, nil
 }
 
 func (c *CopyGetStream) Close() (err error) {
-	if c.writer != nil {
-		if inner := c.writer.Close(); inner != nil {
-			err = inner
-		}
+	if c.writer != nil && c.pos == c.opt.Size {
+		err = c.writer.Close()
 	}
 	if inner := c.reader.Close(); inner != nil {
 		err = inner
diff --git a/src/apiserver/internal/usecase/service/get_stream.go b/src/apiserver/internal/usecase/service/get_stream.go
index a2ad473..b7c988e 100644
--- a/src/apiserver/internal/usecase/service/get_stream.go
+++ b/src/apiserver/internal/usecase/service/get_stream.go
@@ -37,6 +37,7 @@ func (g *GetStream) request(offset int) error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		_ = resp.Body.Close()
 		return fmt.Errorf("get object from dataServer return http code %v", resp.StatusCode)
 	}
 	g.reader = resp.Body
diff --git a/src/apiserver/internal/usecase/service/rs_decoder.go b/src/apiserver/internal/usecase/service/rs_decoder.go
index 381a802..ccb47b3 100644
--- a/src/apiserver/internal/usecase/service/rs_decoder.go
+++ b/src/apiserver/internal/usecase/service/rs_decoder.go
@@ -5,6 +5,7 @@ import (
 	"apiserver/internal/usecase"
 	"common/graceful"
 	"common/logs"
+	"common/util/math"
 	"io"
 	"sync"
 
@@ -14,16 +15,17 @@ import (
 type rsDecoder struct {
 	enc          reedsolomon.Encoder
 	rsCfg        config.RsConfig
-	readers      []io.Reader
+	readers      []io.ReadCloser
 	writers      []io.Writer
 	cache        []byte
 	shardsBuffer []byte
 	cursor       int
 	total        int64
 	size         int64
+	shardPos     int // shardPos is the number of bytes already read from each shard
 }
 
-func NewDecoder(readers []io.Reader, writes []io.Writer, size int64, rsCfg *config.RsConfig) *rsDecoder {
+func NewDecoder(readers []io.ReadCloser, writes []io.Writer, size int64, rsCfg *config.RsConfig) *rsDecoder {
 	enc, _ := reedsolomon.New(rsCfg.DataShards, rsCfg.ParityShards, reedsolomon.WithAutoGoroutines(rsCfg.BlockPerShard))
 	buf := make([]byte, rsCfg.FullSize())
 	return &rsDecoder{
@@ -60,14 +62,22 @@ func (d *rsDecoder) Read(bt []byte) (int, error) {
 	return length, nil
 }
 
+// done returns true if all the data has been decoded
+func (d *rsDecoder) done() bool {
+	return d.total == d.size
+}
+
 func (d *rsDecoder) getData() error {
-	if d.total == d.size {
+	if d.done() {
 		return io.EOF
 	}
 	if d.total > d.size {
 		return usecase.ErrOverRead
 	}
 
+	// every shard must provide exactly the same amount of data, only the last block may be smaller
+	blockSize := math.MinNumber(d.rsCfg.BlockPerShard, d.rsCfg.ShardSize(d.size)-d.shardPos)
+
 	// read shards
 	var wg sync.WaitGroup
 	shards := make([][]byte, d.rsCfg.AllShards())
@@ -75,18 +85,21 @@ func (d *rsDecoder) getData() error {
 		if d.readers[i] == nil {
 			continue
 		}
-		// split shardsBuffer to avoid new memory alloc
-		shards[i] = d.shardsBuffer[i*d.rsCfg.BlockPerShard : (i+1)*d.rsCfg.BlockPerShard]
 		wg.Add(1)
 		go func(idx int) {
 			defer graceful.Recover()
 			defer wg.Done()
-			n, err := io.ReadFull(d.readers[idx], shards[idx])
-			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-				logs.Std().Debugf("read shard %d err: %s", idx, err)
-				shards[idx] = nil
+			// split shardsBuffer to avoid new memory alloc
+			start := idx * d.rsCfg.BlockPerShard
+			block := d.shardsBuffer[start : start+blockSize]
+			if _, err := io.ReadFull(d.readers[idx], block); err != nil {
+				// this shard is broken, never read from it again
+				logs.Std().Errorf("read shard %d err: %s", idx, err)
+				_ = d.readers[idx].Close()
+				d.readers[idx] = nil
+				return
 			}
-			shards[idx] = shards[idx][:n]
+			shards[idx] = block
 		}(i)
 	}
 	wg.Wait()
@@ -95,27 +108,18 @@ func (d *rsDecoder) getData() error {
 	if err := d.enc.Reconstruct(shards); err != nil {
 		return err
 	}
+	d.shardPos += blockSize
 
-	// save lost shards
-	var err error
-	go func() {
-		defer graceful.Recover()
-		for i, w := range d.writers {
-			if w == nil {
-				continue
-			}
-			wg.Add(1)
-			go func(idx int, wt io.Writer) {
-				defer graceful.Recover()
-				defer wg.Done()
-				if _, inner := wt.Write(shards[idx]); inner != nil {
-					err = inner
-					logs.Std().Errorf("rewrite lost shards fail: %s", inner)
-					return
-				}
-			}(i, w)
+	// save lost shards, must be before combining because they may share the memory.
+	// an error doesn't affect reading and won't be committed.
+	for i, w := range d.writers {
+		if w == nil {
+			continue
+		}
+		if _, err := w.Write(shards[i]); err != nil {
+			logs.Std().Errorf("rewrite lost shard %d fail: %s", i, err)
 		}
-	}()
+	}
 
 	// combine data shards
 	for i := range shards[:d.rsCfg.DataShards] {
@@ -127,11 +131,5 @@ func (d *rsDecoder) getData() error {
 		d.cache = append(d.cache, shards[i][:shardSize]...)
 		d.total += shardSize
 	}
-
-	if !d.rsCfg.RewriteAsync {
-		wg.Wait()
-		return err
-	}
-
 	return nil
 }
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index 4a12272..f2b01c1 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -2,11 +2,11 @@ package service
 
 import (
 	"apiserver/config"
+	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/logic"
-	"bytes"
 	"common/graceful"
 	"common/logs"
-	"common/util"
+	"common/util/math"
 	"errors"
 	"fmt"
 	"io"
@@ -16,10 +16,11 @@ import (
 type RSGetStream struct {
 	*rsDecoder
 	*StreamOption
+	rewriters []*rsRewriteStream // the rewriters of lost shards, nil if not lost
 }
 
 type provideStream struct {
-	stream io.Reader
+	stream io.ReadCloser
 	index  int
 	err    error
 }
@@ -49,38 +50,72 @@ func provideGetStream(hash string, locates []string, shardSize int, compress boo
 }
 
 func NewRSGetStream(option *StreamOption, rsCfg *config.RsConfig) (*RSGetStream, error) {
-	readers := make([]io.Reader, rsCfg.AllShards())
+	readers := make([]io.ReadCloser, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
+	locates := make([]string, rsCfg.AllShards())
+	copy(locates, option.Locates)
 	perSize := rsCfg.ShardSize(option.Size)
-	lb := logic.NewDiscovery().NewDataServSelector()
-	for r := range provideGetStream(option.Hash, option.Locates, perSize, option.Compress) {
+	var alive []string
+	for r := range provideGetStream(option.Hash, locates, perSize, option.Compress) {
 		if r.err != nil {
-			logs.Std().Error(r.err)
-			ip := lb.Select()
-			writers[r.index], r.err = NewPutStream(ip, fmt.Sprintf("%s.%d", option.Hash, r.index), int64(perSize), option.Compress)
-			if r.err != nil {
-				return nil, r.err
-			}
-			// metadata update required
-			option.Locates[r.index] = ip
-		} else {
-			readers[r.index] = r.stream
+			logs.Std().Errorf("shard %d of %s is lost: %s", r.index, option.Hash, r.err)
+			continue
 		}
+		readers[r.index] = r.stream
+		alive = append(alive, locates[r.index])
+	}
+	if len(alive) < rsCfg.DataShards {
+		logs.Std().Errorf("only %d shards of %s are available", len(alive), option.Hash)
+		return nil, usecase.ErrServiceUnavailable
+	}
+	opt := *option
+	opt.Locates = locates
+	stream := &RSGetStream{NewDecoder(readers, writers, option.Size, rsCfg), &opt, nil}
+	if len(alive) < rsCfg.AllShards() {
+		stream.rewriteLost(alive)
+	}
+	return stream, nil
+}
+
+// rewriteLost prepares to store the lost shards again. It never affects the reading.
+func (g *RSGetStream) rewriteLost(alive []string) {
+	lb := logic.NewDiscovery().NewDataServSelectorExclude(alive)
+	perSize := g.rsCfg.ShardSize(g.size)
+	rewriters := make([]*rsRewriteStream, len(g.readers))
+	var maxBlocks int
+	if g.rsCfg.RewriteAsync {
+		// never block reading
+		maxBlocks = math.CeilDiv(perSize, g.rsCfg.BlockPerShard)
+	}
+	for i, reader := range g.readers {
+		if reader != nil {
+			continue
+		}
+		ip := lb.Select()
+		if ip == "" {
+			logs.Std().Error("no available servers to rewrite lost shards")
+			break
+		}
+		stream, err := NewPutStream(ip, fmt.Sprintf("%s.%d", g.Hash, i), int64(perSize), g.Compress)
+		if err != nil {
+			logs.Std().Errorf("rewrite lost shard %s.%d err: %s", g.Hash, i, err)
+			continue
+		}
+		rewriters[i] = newRSRewriteStream(stream, maxBlocks)
+		g.writers[i] = rewriters[i]
+		g.rewriters = rewriters
 	}
-	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}, nil
 }
 
 func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream {
-	readers := make([]io.Reader, rsCfg.AllShards())
+	readers := make([]io.ReadCloser, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
-	dsNum := int64(rsCfg.DataShards)
-	perSize := (option.Size + dsNum - 1) / dsNum
+	perSize := rsCfg.ShardSize(option.Size)
 	for idx, loc := range option.Locates {
-		readers[idx] = NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), perSize)
+		readers[idx] = NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), int64(perSize))
 	}
 	dec := NewDecoder(readers, writers, option.Size, rsCfg)
-	return &RSGetStream{dec, option}
+	return &RSGetStream{dec, option, nil}
 }
 
 func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
@@ -90,50 +125,67 @@ func (g *RSGetStream) Seek(offset int64, whence int) (int64, error) {
 	if offset < 0 {
 		return 0, fmt.Errorf("rs get stream only supports forward seek offest")
 	}
-	length := int64(g.rsCfg.BlockSize())
-	buf := bytes.NewBuffer(make([]byte, length))
-	for offset > 0 {
-		if length > offset {
-			length = offset
+	_, err := io.CopyN(io.Discard, g, offset)
+	if err != nil && err != io.EOF {
+		return 0, err
+	}
+	return g.total - int64(g.cacheSize()), nil
+}
+
+func (g *RSGetStream) Close() error {
+	for _, reader := range g.readers {
+		if reader != nil {
+			_ = reader.Close()
 		}
-		n, err := io.CopyN(buf, g, length)
-		offset -= n
-		if err != nil {
-			if err == io.EOF {
-				err = nil
+	}
+	if len(g.rewriters) == 0 {
+		return nil
+	}
+	if g.rsCfg.RewriteAsync {
+		go func() {
+			defer graceful.Recover()
+			if err := g.commitRewriters(); err != nil {
+				logs.Std().Errorf("rewrite lost shards of %s err: %s", g.Hash, err)
 			}
-			return offset, err
-		}
-		buf.Reset()
+		}()
+		return nil
 	}
-	buf = nil
-	return offset, nil
+	return g.commitRewriters()
 }
 
-func (g *RSGetStream) Close() error {
-	wg := util.NewDoneGroup()
-	defer wg.Close()
+// commitRewriters commits the rewritten shards if the whole object has been read, and updates the locates of them.
+func (g *RSGetStream) commitRewriters() error {
+	var wg sync.WaitGroup
+	errs := make([]error, len(g.Locates))
+	for i, w := range g.rewriters {
+		if w == nil {
+			continue
+		}
+		wg.Add(1)
+		go func(idx int, rw *rsRewriteStream) {
+			defer graceful.Recover()
+			defer wg.Done()
+			errs[idx] = rw.Commit(g.done())
+		}(i, w)
+	}
+	wg.Wait()
+	if !g.done() {
+		return nil
+	}
+	locates := append([]string{}, g.Locates...)
 	var needUpdate bool
-	for _, w := range g.writers {
-		if util.InstanceOf[Committer](w) {
+	for i, rw := range g.rewriters {
+		if rw != nil && errs[i] == nil {
+			locates[i] = rw.stream.Locate
 			needUpdate = true
-			wg.Todo()
-			go func(cm Committer) {
-				defer wg.Done()
-				if e := cm.Commit(true); e != nil {
-					wg.Error(e)
-				}
-			}(w.(Committer))
 		}
 	}
-	if err := wg.WaitUntilError(); err != nil {
-		return err
-	}
 	if needUpdate {
 		if g.Updater == nil {
-			return errors.New("locates updater required but nil")
+			errs = append(errs, errors.New("locates updater required but nil"))
+		} else {
+			errs = append(errs, g.Updater(locates))
 		}
-		return g.Updater(g.Locates)
 	}
-	return nil
+	return errors.Join(errs...)
 }
diff --git a/src/apiserver/internal/usecase/service/rs_rewrite_stream.go b/src/apiserver/internal/usecase/service/rs_rewrite_stream.go
new file mode 100644
index 0000000..fd0e9fc
--- /dev/null
+++ b/src/apiserver/internal/usecase/service/rs_rewrite_stream.go
@@ -0,0 +1,54 @@
+package service
+
+import (
+	"common/graceful"
+	"common/logs"
+	"common/util/math"
+	"sync"
+)
+
+// rsRewriteStream stores a lost shard again while the object is being read.
+// Blocks are sent one by one in order by a background goroutine.
+type rsRewriteStream struct {
+	stream *PutStream
+	blocks chan []byte
+	wg     sync.WaitGroup
+	err    error
+}
+
+// newRSRewriteStream maxBlocks is the number of blocks can be buffered
+func newRSRewriteStream(stream *PutStream, maxBlocks int) *rsRewriteStream {
+	rw := &rsRewriteStream{stream: stream, blocks: make(chan []byte, math.MaxNumber(maxBlocks, 1))}
+	rw.wg.Add(1)
+	go func() {
+		defer graceful.Recover()
+		defer rw.wg.Done()
+		for block := range rw.blocks {
+			// drain the rest after an error
+			if rw.err != nil {
+				continue
+			}
+			if _, rw.err = rw.stream.Write(block); rw.err != nil {
+				logs.Std().Errorf("rewrite lost shard %s fail: %s", rw.stream.name, rw.err)
+			}
+		}
+	}()
+	return rw
+}
+
+func (rw *rsRewriteStream) Write(bt []byte) (int, error) {
+	// the origin will be reused
+	rw.blocks <- append(make([]byte, 0, len(bt)), bt...)
+	return len(bt), nil
+}
+
+// Commit waits until all blocks are sent, the shard will be removed if any of them is failed
+func (rw *rsRewriteStream) Commit(ok bool) error {
+	close(rw.blocks)
+	rw.wg.Wait()
+	if !ok || rw.err != nil {
+		_ = rw.stream.Commit(false)
+		return rw.err
+	}
+	return rw.stream.Commit(true)
+}
diff --git a/src/apiserver/internal/usecase/service/temp_stream.go b/src/apiserver/internal/usecase/service/temp_stream.go
index d6a62cd..fb9e910 100644
--- a/src/apiserver/internal/usecase/service/temp_stream.go
+++ b/src/apiserver/internal/usecase/service/temp_stream.go
@@ -36,6 +36,7 @@ func (ts *tempStream) request() error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		_ = resp.Body.Close()
 		return fmt.Errorf("get temp object from dataServer return http code %v", resp.StatusCode)
 	}
 	ts.reader = resp.Body
-- 
2.43.0


From 4c5da37c8ec18a858f13545095f2ad8fd17164e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 35/64] fix: store objects with located shards of distinct
 indexes, keep the configured number of versions

---
 src/apiserver/internal/entity/metadata.go     |  8 ++
 src/apiserver/internal/usecase/interfaces.go  |  1 +
 .../usecase/service/copy_put_stream.go        |  6 +-
 .../internal/usecase/service/meta_service.go  | 24 ++++++
 .../usecase/service/object_service.go         | 74 +++++++++----------
 .../internal/usecase/service/rs_put_stream.go |  6 +-
 6 files changed, 78 insertions(+), 41 deletions(-)

diff --git a/src/apiserver/internal/entity/metadata.go b/src/apiserver/internal/entity/metadata.go
index 4ba17f6..0864240 100644
--- a/src/apiserver/internal/entity/metadata.go
+++ b/src/apiserver/internal/entity/metadata.go
@@ -71,6 +71,14 @@ type Bucket struct {
 	Policies       []string       `json:"policies"`       // Policies is the iam polices for this bucket (No support yet)
 }
 
+// MaxVersions returns the maximum number of versions an object can have
+func (b *Bucket) MaxVersions() int {
+	if !b.Versioning || b.VersionRemains < 1 {
+		return 1
+	}
+	return b.VersionRemains
+}
+
 func (b *Bucket) MakeVersion(ver *Version, conf *config.ObjectConfig) {
 	if b.Compress {
 		ver.Compress = true
diff --git a/src/apiserver/internal/usecase/interfaces.go b/src/apiserver/internal/usecase/interfaces.go
index bdd8ad8..2fa15ae 100644
--- a/src/apiserver/internal/usecase/interfaces.go
+++ b/src/apiserver/internal/usecase/interfaces.go
@@ -13,6 +13,7 @@ type (
 		GetVersion(name, bucket string, verMode int32) (*entity.Version, error)
 		GetMetadata(name, bucket string, verMode int32, withExtra bool) (*entity.Metadata, error)
 		RemoveVersion(name, bucket string, version int32) error
+		RemoveExceeded(name string, bucket *entity.Bucket) error
 	}
 	IObjectService interface {
 		UniqueHash(digest string, ss entity.ObjectStrategy, ds, ps int, compress bool) string
diff --git a/src/apiserver/internal/usecase/service/copy_put_stream.go b/src/apiserver/internal/usecase/service/copy_put_stream.go
index 01a1b0b..7c33f9d 100644
--- a/src/apiserver/internal/usecase/service/copy_put_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_put_stream.go
@@ -93,8 +93,10 @@ func (c *CopyPutStream) Close() error {
 }
 
 func (c *CopyPutStream) Commit(ok bool) error {
-	if err := c.Flush(); err != nil {
-		return err
+	if ok {
+		if err := c.Flush(); err != nil {
+			return err
+		}
 	}
 	wg := util.NewDoneGroup()
 	defer wg.Close()
diff --git a/src/apiserver/internal/usecase/service/meta_service.go b/src/apiserver/internal/usecase/service/meta_service.go
index 63e12fc..1f928e4 100644
--- a/src/apiserver/internal/usecase/service/meta_service.go
+++ b/src/apiserver/internal/usecase/service/meta_service.go
@@ -4,8 +4,12 @@ import (
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/repo"
+	"common/response"
 )
 
+// maxRemoveTimes limits the number of versions removed at a time
+const maxRemoveTimes = 64
+
 type MetaService struct {
 	repo        repo.IMetadataRepo
 	versionRepo repo.IVersionRepo
@@ -67,3 +71,23 @@ func (m *MetaService) GetMetadata(name, bucket string, ver int32, withExtra bool
 	}
 	return res, nil
 }
+
+// RemoveExceeded removes the oldest versions of an object until the number of them meets the config of bucket
+func (m *MetaService) RemoveExceeded(name string, bucket *entity.Bucket) error {
+	limit := bucket.MaxVersions()
+	for i := 0; i < maxRemoveTimes; i++ {
+		md, err := m.repo.FindByName(name, bucket.Name, true)
+		if err != nil {
+			return err
+		}
+		if md.Total <= limit {
+			return nil
+		}
+		err = m.RemoveVersion(name, bucket.Name, int32(md.FirstVersion))
+		// may be removed by others
+		if err != nil && !response.CheckErrStatus(404, err) {
+			return err
+		}
+	}
+	return nil
+}
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index 76adda5..a2ee00f 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -15,6 +15,8 @@ import (
 	"common/util"
 	"common/util/crypto"
 	"context"
+	"crypto/sha256"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"io"
@@ -96,6 +98,10 @@ func (o *ObjectService) LocateObject(hash string, shardNum int) ([]string, bool)
 			for _, event := range resp.Events {
 				ip, idx := getLocateResp(string(event.Kv.Value))
 				logs.Std().Debugf("located success for index %d of %s at %s", idx, hash, ip)
+				// a shard may be located at many servers
+				if idx < 0 || idx >= len(locates) || locates[idx] != "" {
+					continue
+				}
 				locates[idx] = ip
 				cnt++
 			}
@@ -118,7 +124,7 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 		defer dg.Done()
 		var inner error
 		metadata, inner = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
+		if inner != nil && !response.CheckErrStatus(404, inner) {
 			dg.Error(inner)
 		}
 	}()
@@ -163,32 +169,26 @@ func (o *ObjectService) StoreObject(req *entity.PutReq, md *entity.Metadata) (vn
 			Size:     ver.Size,
 			Compress: ver.Compress,
 		}, ver)); err != nil {
-			return -1, fmt.Errorf("stream to data server err: %w", err)
+			logs.Std().Errorf("stream to data server err: %s", err)
+			return -1, err
 		}
 	}
 
 	// save metadata
 	if metadata == nil {
-		// if SaveMetadata returns ErrMetadataExists that means a concurrent problem, get the metadata and continue it.
-		if vn, err = o.metaService.SaveMetadata(md); !errors.Is(err, ErrMetadataExists) {
-			return
-		}
-		metadata, err = o.metaService.GetMetadata(md.Name, md.Bucket, int32(entity.VerModeNot), true)
-		if err != nil {
-			return
-		}
+		// if SaveMetadata returns ErrMetadataExists that means a concurrent problem, continue to add version.
+		vn, err = o.metaService.SaveMetadata(md)
 	}
-	if vn, err = o.metaService.AddVersion(md.Name, md.Bucket, ver); err != nil {
-		return
+	if metadata != nil || errors.Is(err, ErrMetadataExists) {
+		vn, err = o.metaService.AddVersion(md.Name, md.Bucket, ver)
 	}
-	if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-		go func() {
-			defer graceful.Recover()
-			// if not err, delete first version
-			inner := o.metaService.RemoveVersion(md.Name, md.Bucket, int32(metadata.FirstVersion))
-			util.LogErrWithPre("remove first version err", inner)
-		}()
+	if err != nil {
+		return
 	}
+	go func() {
+		defer graceful.Recover()
+		util.LogErrWithPre("remove first version err", o.metaService.RemoveExceeded(md.Name, bucket))
+	}()
 	return
 }
 
@@ -200,27 +200,27 @@ func streamToDataServer(req *entity.PutReq, meta *entity.Version, provider Strea
 	}
 	defer stream.Close()
 
-	//digest validation
+	// digest validation
+	var reader io.Reader = req.Body
+	digest := sha256.New()
 	if pool.Config.Object.Checksum {
-		reader := io.TeeReader(bufio.NewReaderSize(req.Body, 8*cst.OS.PageSize), stream)
-		hash := crypto.SHA256IO(reader)
-		// compare to request hash which is real object checksum, not version hash.
-		if hash != req.Hash {
-			logs.Std().Infof("Digest of %v validation failure\n", req.Name)
-			if err = stream.Commit(false); err != nil {
-				logs.Std().Errorln(err)
-			}
-			return nil, ErrInvalidFile
+		reader = io.TeeReader(bufio.NewReaderSize(req.Body, 8*cst.OS.PageSize), digest)
+	}
+	// copy request body to stream
+	if _, err = io.CopyBuffer(stream, reader, make([]byte, 8*cst.OS.PageSize)); err != nil {
+		logs.Std().Error(err)
+		if err = stream.Commit(false); err != nil {
+			logs.Std().Errorln(err)
 		}
-	} else {
-		// copy request body to stream
-		if _, err = io.CopyBuffer(stream, req.Body, make([]byte, 8*cst.OS.PageSize)); err != nil {
-			logs.Std().Error(err)
-			if err = stream.Commit(false); err != nil {
-				logs.Std().Errorln(err)
-			}
-			return nil, ErrInternalServer
+		return nil, ErrInternalServer
+	}
+	// compare to request hash which is real object checksum, not version hash.
+	if pool.Config.Object.Checksum && hex.EncodeToString(digest.Sum(nil)) != req.Hash {
+		logs.Std().Infof("Digest of %v validation failure\n", req.Name)
+		if err = stream.Commit(false); err != nil {
+			logs.Std().Errorln(err)
 		}
+		return nil, ErrInvalidFile
 	}
 	// upload success
 	if err = stream.Commit(true); err != nil {
diff --git a/src/apiserver/internal/usecase/service/rs_put_stream.go b/src/apiserver/internal/usecase/service/rs_put_stream.go
index 2921064..500b25e 100644
--- a/src/apiserver/internal/usecase/service/rs_put_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_put_stream.go
@@ -46,8 +46,10 @@ func newExistedRSPutStream(ips, ids []string, hash string, compress bool, rsCfg
 }
 
 func (p *RSPutStream) Commit(ok bool) error {
-	if _, err := p.Flush(); err != nil {
-		return err
+	if ok {
+		if _, err := p.Flush(); err != nil {
+			return err
+		}
 	}
 
 	wg := util.NewDoneGroup()
-- 
2.43.0


From b347a057931aa1d8c38fe47894f68db7a11e2e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 36/64] fix: make a resumable upload visible only after it is
 validated and committed

---
 .../internal/controller/http/big_api.go       | 118 +++++++-----------
 .../internal/usecase/service/put_stream.go    |  19 ++-
 .../internal/usecase/service/rs_get_stream.go |   4 +-
 .../usecase/service/rs_resumable_stream.go    |  50 +++++++-
 4 files changed, 110 insertions(+), 81 deletions(-)

diff --git a/src/apiserver/internal/controller/http/big_api.go b/src/apiserver/internal/controller/http/big_api.go
index ee8f1bc..bdfc47a 100644
--- a/src/apiserver/internal/controller/http/big_api.go
+++ b/src/apiserver/internal/controller/http/big_api.go
@@ -1,7 +1,6 @@
 package http
 
 import (
-	"apiserver/config"
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase"
 	"apiserver/internal/usecase/pool"
@@ -10,7 +9,7 @@ import (
 	"common/graceful"
 	"common/response"
 	"common/util"
-	"common/util/crypto"
+	"errors"
 	"fmt"
 
 	"apiserver/internal/usecase/logic"
@@ -76,7 +75,7 @@ func (bc *BigObjectsController) Post(g *gin.Context) {
 			ShardSize:     conf.ShardSize(req.Size),
 			StoreStrategy: entity.ECReedSolomon,
 		}
-		verNum, err := bc.finishUpload(req.Name, req.Bucket, object, &conf)
+		verNum, err := bc.finishUpload(req.Name, bucket, object)
 		if err != nil {
 			response.FailErr(err, g)
 			return
@@ -177,21 +176,42 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 		return
 	}
 	// if curSize equals expected size
-	verNum, err := bc.finishUpload(stream.Name, stream.Bucket, &entity.Version{
+	bucket, err := bc.bucketRepo.Get(stream.Bucket)
+	if err != nil {
+		response.FailErr(err, g)
+		return
+	}
+	// validate digest
+	if pool.Config.Object.Checksum {
+		ok, err := stream.Validate(func(digest string) bool {
+			return stream.Hash == bc.objectService.UniqueHash(digest, entity.ECReedSolomon, stream.Config.DataShards, stream.Config.ParityShards, stream.Compress)
+		})
+		if err != nil {
+			response.FailErr(err, g)
+			return
+		}
+		if !ok {
+			util.LogErr(stream.Commit(false))
+			response.Exec(g).Fail(http.StatusForbidden, "signature authentication failure")
+			return
+		}
+	}
+	// data must be available before the version is visible
+	if err = stream.Commit(true); err != nil {
+		response.FailErr(err, g)
+		return
+	}
+	verNum, err := bc.finishUpload(stream.Name, bucket, &entity.Version{
 		Hash:          stream.Hash,
 		Size:          stream.Size,
+		Compress:      stream.Compress,
 		Locate:        stream.Servers,
 		DataShards:    stream.Config.DataShards,
 		ParityShards:  stream.Config.ParityShards,
 		ShardSize:     stream.Config.ShardSize(stream.Size),
 		StoreStrategy: entity.ECReedSolomon,
-	}, stream.Config)
+	})
 	if err != nil {
-		util.LogErr(stream.Commit(false))
-		response.FailErr(err, g)
-		return
-	}
-	if err = stream.Commit(true); err != nil {
 		response.FailErr(err, g)
 		return
 	}
@@ -202,72 +222,22 @@ func (bc *BigObjectsController) Patch(g *gin.Context) {
 	}, g)
 }
 
-func (bc *BigObjectsController) finishUpload(metaName, bucketName string, v *entity.Version, conf *config.RsConfig) (verNum int32, err error) {
-	// validate digest
-	if pool.Config.Object.Checksum {
-		getStream := service.NewRSTempStream(&service.StreamOption{
-			Hash:    v.Hash,
-			Size:    v.Size,
-			Locates: v.Locate,
-		}, conf)
-		hash := crypto.SHA256IO(getStream)
-		if hash != v.Hash {
-			err = response.NewError(http.StatusForbidden, "signature authentication failure")
-			return
-		}
+// finishUpload makes the uploaded data visible as a version of object
+func (bc *BigObjectsController) finishUpload(metaName string, bucket *entity.Bucket, v *entity.Version) (verNum int32, err error) {
+	verNum, err = bc.metaService.SaveMetadata(&entity.Metadata{
+		Name:     metaName,
+		Bucket:   bucket.Name,
+		Versions: []*entity.Version{v},
+	})
+	if errors.Is(err, usecase.ErrMetadataExists) {
+		verNum, err = bc.metaService.AddVersion(metaName, bucket.Name, v)
 	}
-	dg := util.NewDoneGroup()
-	defer dg.Close()
-	// get metadata if exist
-	var metadata *entity.Metadata
-	dg.Todo()
-	go func() {
-		defer dg.Done()
-		var inner error
-		metadata, inner = bc.metaService.GetMetadata(metaName, bucketName, int32(entity.VerModeNot), true)
-		if err != nil && !response.CheckErrStatus(404, inner) {
-			dg.Error(inner)
-		}
-	}()
-	// get bucket
-	var bucket *entity.Bucket
-	dg.Todo()
-	go func() {
-		defer dg.Done()
-		var inner error
-		bucket, inner = bc.bucketRepo.Get(bucketName)
-		if inner != nil {
-			dg.Error(inner)
-		}
-	}()
-	// wait
-	if err = dg.WaitUntilError(); err != nil {
+	if err != nil {
 		return
 	}
-	if metadata != nil {
-		// update metadata
-		verNum, err = bc.metaService.AddVersion(metadata.Name, metadata.Bucket, v)
-		if err != nil {
-			return
-		}
-		if metadata.Total > 0 && !bucket.Versioning || metadata.Total >= bucket.VersionRemains {
-			go func() {
-				defer graceful.Recover()
-				// if not err, delete first version
-				inner := bc.metaService.RemoveVersion(metadata.Name, metadata.Bucket, int32(metadata.FirstVersion))
-				util.LogErrWithPre("remove first version err", inner)
-			}()
-		}
-	} else {
-		// add metadata
-		verNum, err = bc.metaService.SaveMetadata(&entity.Metadata{
-			Name:     metaName,
-			Bucket:   bucketName,
-			Versions: []*entity.Version{v},
-		})
-		if err != nil {
-			return
-		}
-	}
+	go func() {
+		defer graceful.Recover()
+		util.LogErrWithPre("remove first version err", bc.metaService.RemoveExceeded(metaName, bucket))
+	}()
 	return
 }
diff --git a/src/apiserver/internal/usecase/service/put_stream.go b/src/apiserver/internal/usecase/service/put_stream.go
index 625e886..8db9173 100644
--- a/src/apiserver/internal/usecase/service/put_stream.go
+++ b/src/apiserver/internal/usecase/service/put_stream.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"common/graceful"
 	"common/logs"
+	"common/util/math"
 	"sync/atomic"
 )
 
@@ -15,6 +16,7 @@ type PutStream struct {
 	name      string
 	tmpId     string
 	compress  bool
+	skip      int64
 	committed *atomic.Bool
 }
 
@@ -39,14 +41,27 @@ func (p *PutStream) Close() error {
 	return nil
 }
 
+// Skip drops the next n bytes of writing since the server already has them
+func (p *PutStream) Skip(n int64) {
+	p.skip = n
+}
+
 func (p *PutStream) Write(b []byte) (n int, err error) {
 	if p.committed.Load() {
 		return 0, usecase.ErrStreamClosed
 	}
+	n = len(b)
+	if p.skip > 0 {
+		skip := math.MinNumber(p.skip, int64(n))
+		p.skip -= skip
+		if b = b[skip:]; len(b) == 0 {
+			return n, nil
+		}
+	}
 	if err = webapi.PatchTmpObject(p.Locate, p.tmpId, bytes.NewBuffer(b)); err != nil {
-		return
+		return 0, err
 	}
-	return len(b), nil
+	return n, nil
 }
 
 // Commit IO: send commit message and close stream
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index f2b01c1..a82f0d1 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -107,12 +107,12 @@ func (g *RSGetStream) rewriteLost(alive []string) {
 	}
 }
 
-func NewRSTempStream(option *StreamOption, rsCfg *config.RsConfig) *RSGetStream {
+func NewRSTempStream(option *StreamOption, ids []string, rsCfg *config.RsConfig) *RSGetStream {
 	readers := make([]io.ReadCloser, rsCfg.AllShards())
 	writers := make([]io.Writer, rsCfg.AllShards())
 	perSize := rsCfg.ShardSize(option.Size)
 	for idx, loc := range option.Locates {
-		readers[idx] = NewTempStream(loc, fmt.Sprintf("%s.%d", option.Hash, idx), int64(perSize))
+		readers[idx] = NewTempStream(loc, ids[idx], int64(perSize))
 	}
 	dec := NewDecoder(readers, writers, option.Size, rsCfg)
 	return &RSGetStream{dec, option, nil}
diff --git a/src/apiserver/internal/usecase/service/rs_resumable_stream.go b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
index 0144921..b2eef1c 100644
--- a/src/apiserver/internal/usecase/service/rs_resumable_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_resumable_stream.go
@@ -4,8 +4,12 @@ import (
 	"apiserver/config"
 	"apiserver/internal/usecase/webapi"
 	"common/util"
+	"common/util/math"
+	"crypto/sha256"
 	"encoding/base64"
+	"encoding/hex"
 	"fmt"
+	"io"
 )
 
 type resumeToken struct {
@@ -63,11 +67,33 @@ func NewRSResumablePutStream(opt *StreamOption, rsCfg *config.RsConfig) (*RSResu
 
 // CurrentSize IO: 请求数据服务器获取分片大小
 func (p *RSResumablePutStream) CurrentSize() (int64, error) {
-	//只请求一个服务器，因为Rs算法保证每次上传到每个服务器的大小一致
-	size, err := webapi.HeadTmpObject(p.Servers[0], p.Ids[0])
-	if err != nil {
+	// 上传中断可能导致部分服务器少一个分块，以最小的为准
+	sizes := make([]int64, len(p.Servers))
+	dg := util.NewDoneGroup()
+	defer dg.Close()
+	for i := range p.Servers {
+		dg.Todo()
+		go func(idx int) {
+			defer dg.Done()
+			size, err := webapi.HeadTmpObject(p.Servers[idx], p.Ids[idx])
+			if err != nil {
+				dg.Error(err)
+				return
+			}
+			sizes[idx] = size
+		}(i)
+	}
+	if err := dg.WaitUntilError(); err != nil {
 		return 0, err
 	}
+	size := sizes[0]
+	for _, v := range sizes {
+		size = math.MinNumber(size, v)
+	}
+	// 已经收到的部分不再发送
+	for i, w := range p.writers {
+		w.(*PutStream).Skip(sizes[i] - size)
+	}
 	//求乘积得到当前大小
 	size *= int64(p.rsConfig.DataShards)
 	if size > p.Size {
@@ -76,6 +102,24 @@ func (p *RSResumablePutStream) CurrentSize() (int64, error) {
 	return size, nil
 }
 
+// Validate checks the digest of all the uploaded data
+func (p *RSResumablePutStream) Validate(verify func(digest string) bool) (bool, error) {
+	if _, err := p.Flush(); err != nil {
+		return false, err
+	}
+	stream := NewRSTempStream(&StreamOption{
+		Hash:    p.Hash,
+		Size:    p.Size,
+		Locates: p.Servers,
+	}, p.Ids, p.Config)
+	defer stream.Close()
+	digest := sha256.New()
+	if _, err := io.Copy(digest, stream); err != nil {
+		return false, err
+	}
+	return verify(hex.EncodeToString(digest.Sum(nil))), nil
+}
+
 // Token 上传记录
 func (p *RSResumablePutStream) Token() string {
 	return base64.StdEncoding.EncodeToString(util.GobEncode(p.resumeToken))
-- 
2.43.0


From f076156ea17b8d2f17d3b368a610f673b94eef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 37/64] fix: prepare the rewriting of lost shards without
 delaying the reading

---
 .../internal/usecase/service/rs_get_stream.go  |  7 +------
 .../usecase/service/rs_rewrite_stream.go       | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index a82f0d1..aad13a6 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -96,12 +96,7 @@ func (g *RSGetStream) rewriteLost(alive []string) {
 			logs.Std().Error("no available servers to rewrite lost shards")
 			break
 		}
-		stream, err := NewPutStream(ip, fmt.Sprintf("%s.%d", g.Hash, i), int64(perSize), g.Compress)
-		if err != nil {
-			logs.Std().Errorf("rewrite lost shard %s.%d err: %s", g.Hash, i, err)
-			continue
-		}
-		rewriters[i] = newRSRewriteStream(stream, maxBlocks)
+		rewriters[i] = newRSRewriteStream(ip, fmt.Sprintf("%s.%d", g.Hash, i), int64(perSize), g.Compress, maxBlocks)
 		g.writers[i] = rewriters[i]
 		g.rewriters = rewriters
 	}
diff --git a/src/apiserver/internal/usecase/service/rs_rewrite_stream.go b/src/apiserver/internal/usecase/service/rs_rewrite_stream.go
index fd0e9fc..a76e8cb 100644
--- a/src/apiserver/internal/usecase/service/rs_rewrite_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_rewrite_stream.go
@@ -17,21 +17,22 @@ type rsRewriteStream struct {
 }
 
 // newRSRewriteStream maxBlocks is the number of blocks can be buffered
-func newRSRewriteStream(stream *PutStream, maxBlocks int) *rsRewriteStream {
-	rw := &rsRewriteStream{stream: stream, blocks: make(chan []byte, math.MaxNumber(maxBlocks, 1))}
+func newRSRewriteStream(ip, name string, size int64, compress bool, maxBlocks int) *rsRewriteStream {
+	rw := &rsRewriteStream{blocks: make(chan []byte, math.MaxNumber(maxBlocks, 1))}
 	rw.wg.Add(1)
 	go func() {
 		defer graceful.Recover()
 		defer rw.wg.Done()
+		rw.stream, rw.err = NewPutStream(ip, name, size, compress)
 		for block := range rw.blocks {
 			// drain the rest after an error
-			if rw.err != nil {
-				continue
-			}
-			if _, rw.err = rw.stream.Write(block); rw.err != nil {
-				logs.Std().Errorf("rewrite lost shard %s fail: %s", rw.stream.name, rw.err)
+			if rw.err == nil {
+				_, rw.err = rw.stream.Write(block)
 			}
 		}
+		if rw.err != nil {
+			logs.Std().Errorf("rewrite lost shard %s fail: %s", name, rw.err)
+		}
 	}()
 	return rw
 }
@@ -46,6 +47,9 @@ func (rw *rsRewriteStream) Write(bt []byte) (int, error) {
 func (rw *rsRewriteStream) Commit(ok bool) error {
 	close(rw.blocks)
 	rw.wg.Wait()
+	if rw.stream == nil {
+		return rw.err
+	}
 	if !ok || rw.err != nil {
 		_ = rw.stream.Commit(false)
 		return rw.err
-- 
2.43.0


From 767c8704717bbb32c02945df90c326c828ef51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 38/64] fix: answer with the status that was set instead of OK

---
 src/common/response/gin_executor.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/response/gin_executor.go b/src/common/response/gin_executor.go
index df709a9..73192f4 100644
--- a/src/common/response/gin_executor.go
+++ b/src/common/response/gin_executor.go
@@ -3,7 +3,6 @@ package response
 import (
 	"common/util"
 	"github.com/gin-gonic/gin"
-	"net/http"
 )
 
 type GinExecutor struct {
@@ -32,7 +31,7 @@ func (ge *GinExecutor) Fail(code int, msg string) {
 }
 
 func (ge *GinExecutor) JSON(body any) *GinExecutor {
-	ge.ctx.JSON(http.StatusOK, body)
+	ge.ctx.JSON(ge.ctx.Writer.Status(), body)
 	return ge
 }
 
-- 
2.43.0


From 254540ed4185f889234583641f790e2a818815ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 39/64] fix: deliver changes of the leader in order and to late
 subscribers

---
 .../internal/usecase/raftimpl/raft_impl.go    | 41 +++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/metaserver/internal/usecase/raftimpl/raft_impl.go b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
index 0f36234..3011b86 100644
--- a/src/metaserver/internal/usecase/raftimpl/raft_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/raft_impl.go
@@ -14,6 +14,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/hashicorp/raft"
 	boltdb "github.com/hashicorp/raft-boltdb/v2"
@@ -28,7 +29,8 @@ type RaftWrapper struct {
 	Address             string
 	Enabled             bool
 	isLeader            bool
-	leaderChangedEvents []IRaftLeaderChanged
+	leaderMux           sync.Mutex
+	leaderChangedEvents []chan bool
 	closeRaftStore      func()
 }
 
@@ -129,7 +131,6 @@ func (rw *RaftWrapper) subscribeLeaderCh() {
 	go func() {
 		defer graceful.Recover()
 		for is := range rw.Raft.LeaderCh() {
-			rw.isLeader = is
 			rw.OnLeaderChanged(is)
 			raftLog.Infof("server %s leader", util.IfElse(is, "become", "lose"))
 		}
@@ -137,22 +138,46 @@ func (rw *RaftWrapper) subscribeLeaderCh() {
 }
 
 func (rw *RaftWrapper) OnLeaderChanged(isLeader bool) {
-	for _, event := range rw.leaderChangedEvents {
-		go func(e IRaftLeaderChanged) {
-			defer graceful.Recover()
-			e.OnLeaderChanged(isLeader)
-		}(event)
+	rw.leaderMux.Lock()
+	defer rw.leaderMux.Unlock()
+	rw.isLeader = isLeader
+	for _, ch := range rw.leaderChangedEvents {
+		notifyLeader(ch, isLeader)
 	}
 }
 
+// notifyLeader hands the state over to ch, an elder one not taken yet is dropped
+func notifyLeader(ch chan bool, isLeader bool) {
+	select {
+	case <-ch:
+	default:
+	}
+	ch <- isLeader
+}
+
 func (rw *RaftWrapper) Init() {
 	// if enabled raft, init as slave
 	// else init as singleton master
 	rw.OnLeaderChanged(!rw.Enabled)
 }
 
+// RegisterLeaderChangedEvent calls event with every change of leader in order, and at once if server is already the leader
 func (rw *RaftWrapper) RegisterLeaderChangedEvent(event IRaftLeaderChanged) {
-	rw.leaderChangedEvents = append(rw.leaderChangedEvents, event)
+	rw.leaderMux.Lock()
+	defer rw.leaderMux.Unlock()
+	ch := make(chan bool, 1)
+	rw.leaderChangedEvents = append(rw.leaderChangedEvents, ch)
+	if rw.IsLeader() {
+		ch <- true
+	}
+	go func() {
+		for is := range ch {
+			func() {
+				defer graceful.Recover()
+				event.OnLeaderChanged(is)
+			}()
+		}
+	}()
 }
 
 func (rw *RaftWrapper) GetRaftIfLeader() (IRaft, bool) {
-- 
2.43.0


From 2ad00b4716b4fe2f973c813b34b05f34dbebeec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 40/64] fix: register a server under one role and retry until
 it is saved

---
 src/common/registry/config.go                 |   3 +-
 src/common/registry/etcd_discovery.go         |  25 +---
 src/common/registry/etcd_lifecycle.go         |  35 ++++--
 src/common/registry/etcd_registry.go          | 115 +++++++++++++++---
 .../internal/usecase/logic/registry_logic.go  |   5 +-
 5 files changed, 133 insertions(+), 50 deletions(-)

diff --git a/src/common/registry/config.go b/src/common/registry/config.go
index 3c9e51c..ea8cd50 100644
--- a/src/common/registry/config.go
+++ b/src/common/registry/config.go
@@ -1,6 +1,7 @@
 package registry
 
 import (
+	"common/cst"
 	"common/util"
 	"fmt"
 	"net"
@@ -30,7 +31,7 @@ func (c *Config) RegisterAddr() (string, bool) {
 }
 
 func (c *Config) RegisterKey() string {
-	return fmt.Sprint(c.Group, "/", c.Name, "/", c.SID())
+	return cst.EtcdPrefix.FmtRegistry(c.Group, fmt.Sprint(c.Name, "/", c.SID()))
 }
 
 func (c *Config) SID() string {
diff --git a/src/common/registry/etcd_discovery.go b/src/common/registry/etcd_discovery.go
index 2c8a812..0c214a3 100644
--- a/src/common/registry/etcd_discovery.go
+++ b/src/common/registry/etcd_discovery.go
@@ -5,7 +5,6 @@ import (
 	"common/graceful"
 	"common/util"
 	"context"
-	"strings"
 	"time"
 
 	"go.etcd.io/etcd/api/v3/mvccpb"
@@ -112,15 +111,9 @@ func (e *EtcdDiscovery) GetServiceMapping(name string) map[string]string {
 	res := make(map[string]string)
 	if sl, ok := e.services[name]; ok {
 		for k, addr := range sl.copy() {
-			idx1 := strings.LastIndexByte(k, '/')
-			if idx1 < 0 {
-				continue
+			if id, _, ok := splitKey(k); ok {
+				res[id] = addr
 			}
-			idx2 := strings.LastIndexByte(k, '_')
-			if idx2 < 0 {
-				idx2 = len(k)
-			}
-			res[k[idx1+1:idx2]] = addr
 		}
 	}
 	return res
@@ -151,18 +144,10 @@ func (e *EtcdDiscovery) GetService(name string, id string) (string, bool) {
 
 func (e *EtcdDiscovery) GetServiceMappingWith(name string, master bool) map[string]string {
 	if sl, ok := e.services[name]; ok {
-		res := make(map[string]string, len(sl.data))
+		res := make(map[string]string)
 		for k, addr := range sl.copy() {
-			idx := strings.LastIndexByte(k, '/')
-			if idx < 0 {
-				continue
-			}
-			sid, role, contains := strings.Cut(k[idx+1:], "_")
-			if master {
-				if !contains || role == "master" {
-					res[sid] = addr
-				}
-			} else if role == "slave" {
+			sid, role, ok := splitKey(k)
+			if ok && master == (role != "slave") {
 				res[sid] = addr
 			}
 		}
diff --git a/src/common/registry/etcd_lifecycle.go b/src/common/registry/etcd_lifecycle.go
index 78d06b5..d9072de 100644
--- a/src/common/registry/etcd_lifecycle.go
+++ b/src/common/registry/etcd_lifecycle.go
@@ -15,7 +15,7 @@ type Lifecycle struct {
 	ttl         time.Duration
 	ctx         context.Context
 	cancel      func()
-	notifyLease []func(id clientv3.LeaseID)
+	notifyLease []chan clientv3.LeaseID
 }
 
 func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
@@ -29,12 +29,14 @@ func NewLifecycle(cli clientv3.Lease, ttl time.Duration) *Lifecycle {
 	}
 }
 
-func (lc *Lifecycle) notifying() {
-	for _, f := range lc.notifyLease {
-		go func(fn func(id clientv3.LeaseID)) {
-			defer graceful.Recover()
-			fn(lc.lease)
-		}(f)
+// notifying hands the new lease over to every subscriber, an elder one not taken yet is dropped
+func (lc *Lifecycle) notifying(id clientv3.LeaseID) {
+	for _, ch := range lc.notifyLease {
+		select {
+		case <-ch:
+		default:
+		}
+		ch <- id
 	}
 }
 
@@ -59,7 +61,7 @@ func (lc *Lifecycle) DeadLoop() {
 		lc.mux.Unlock()
 
 		// notify lease change
-		lc.notifying()
+		lc.notifying(leaseResp.ID)
 
 		// keepalive new lease
 		response, err := lc.Client.KeepAlive(lc.ctx, lc.lease)
@@ -84,8 +86,23 @@ func (lc *Lifecycle) DeadLoop() {
 	}
 }
 
+// Subscribe calls fn with every new lease in order. It must be called before DeadLoop
 func (lc *Lifecycle) Subscribe(fn func(id clientv3.LeaseID)) {
-	lc.notifyLease = append(lc.notifyLease, fn)
+	ch := make(chan clientv3.LeaseID, 1)
+	lc.notifyLease = append(lc.notifyLease, ch)
+	go func() {
+		for {
+			select {
+			case <-lc.ctx.Done():
+				return
+			case id := <-ch:
+				func() {
+					defer graceful.Recover()
+					fn(id)
+				}()
+			}
+		}
+	}()
 }
 
 func (lc *Lifecycle) Close() error {
diff --git a/src/common/registry/etcd_registry.go b/src/common/registry/etcd_registry.go
index 3161a17..a0e3c0a 100644
--- a/src/common/registry/etcd_registry.go
+++ b/src/common/registry/etcd_registry.go
@@ -1,15 +1,25 @@
 package registry
 
 import (
-	"bytes"
 	. "common/cst"
 	"common/logs"
 	"common/util"
 	"context"
+	"errors"
 	"fmt"
+	"strings"
+	"sync"
+	"time"
+
+	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
 	clientv3 "go.etcd.io/etcd/client/v3"
 )
 
+const (
+	masterSuffix = "_master"
+	slaveSuffix  = "_slave"
+)
+
 var registryLog = logs.New("etcd-registry")
 
 type EtcdRegistry struct {
@@ -18,6 +28,8 @@ type EtcdRegistry struct {
 	stdName string
 	name    string
 	addr    string
+	mux     sync.Mutex       // protects name and lease
+	lease   clientv3.LeaseID // the lease of registration, NoLease if it's unregistered
 }
 
 func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
@@ -37,19 +49,45 @@ func NewEtcdRegistry(kv *clientv3.Client, cfg *Config) *EtcdRegistry {
 }
 
 func (e *EtcdRegistry) Key() string {
-	return EtcdPrefix.FmtRegistry(e.cfg.Group, e.name)
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	return e.keyOf(e.name)
+}
+
+func (e *EtcdRegistry) keyOf(name string) string {
+	return EtcdPrefix.FmtRegistry(e.cfg.Group, name)
 }
 
 func (e *EtcdRegistry) AsMaster() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "master")
-	return e
+	return e.as(masterSuffix)
 }
 
 func (e *EtcdRegistry) AsSlave() *EtcdRegistry {
-	e.name = fmt.Sprint(e.stdName, "_", "slave")
+	return e.as(slaveSuffix)
+}
+
+func (e *EtcdRegistry) as(suffix string) *EtcdRegistry {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.name = e.stdName + suffix
 	return e
 }
 
+// splitKey cuts a registered key to the id of server and its role
+func splitKey(key string) (id, role string, ok bool) {
+	idx := strings.LastIndexByte(key, '/')
+	if idx < 0 {
+		return
+	}
+	id, ok = key[idx+1:], true
+	for _, suffix := range []string{masterSuffix, slaveSuffix} {
+		if strings.HasSuffix(id, suffix) {
+			return strings.TrimSuffix(id, suffix), suffix[1:], true
+		}
+	}
+	return
+}
+
 func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
 	resp, err := e.cli.Get(context.Background(), EtcdPrefix.FmtRegistry(e.cfg.Group, name), clientv3.WithPrefix())
 	if err != nil {
@@ -58,15 +96,9 @@ func (e *EtcdRegistry) GetServiceMapping(name string) map[string]string {
 	}
 	res := make(map[string]string, len(resp.Kvs))
 	for _, kv := range resp.Kvs {
-		idx1 := bytes.LastIndexByte(kv.Key, '/')
-		if idx1 < 0 {
-			continue
-		}
-		idx2 := bytes.LastIndexByte(kv.Key, '_')
-		if idx2 < 0 {
-			idx2 = len(kv.Key)
+		if id, _, ok := splitKey(string(kv.Key)); ok {
+			res[id] = util.BytesToStr(kv.Value)
 		}
-		res[util.BytesToStr(kv.Key[idx1+1:idx2])] = util.BytesToStr(kv.Value)
 	}
 	return res
 }
@@ -90,15 +122,64 @@ func (e *EtcdRegistry) GetService(name string, id string) (string, bool) {
 	return v, ok
 }
 
+// Register saves the address with lease, retries until it is saved or the lease is gone
 func (e *EtcdRegistry) Register(id clientv3.LeaseID) {
-	if _, err := e.cli.Put(context.Background(), e.Key(), e.addr, clientv3.WithLease(id)); err != nil {
+	e.mux.Lock()
+	e.lease = id
+	e.mux.Unlock()
+	e.Refresh()
+}
+
+// Refresh registers again with the current lease after the role is changed
+func (e *EtcdRegistry) Refresh() {
+	for {
+		err := e.register()
+		if err == nil {
+			return
+		}
 		registryLog.Errorf("register %s fails: %s", e.addr, err)
-		return
+		if errors.Is(err, rpctypes.ErrLeaseNotFound) {
+			// register again when a new lease is granted
+			return
+		}
+		time.Sleep(time.Second)
+	}
+}
+
+func (e *EtcdRegistry) register() error {
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	if e.lease == clientv3.NoLease {
+		// not granted yet, or it's unregistered
+		return nil
+	}
+	ctx, cancel := context.WithTimeout(context.Background(), e.timeout())
+	defer cancel()
+	// only one role at the same time
+	ops := []clientv3.Op{clientv3.OpPut(e.keyOf(e.name), e.addr, clientv3.WithLease(e.lease))}
+	for _, name := range []string{e.stdName, e.stdName + masterSuffix, e.stdName + slaveSuffix} {
+		if name != e.name {
+			ops = append(ops, clientv3.OpDelete(e.keyOf(name)))
+		}
+	}
+	if _, err := e.cli.Txn(ctx).Then(ops...).Commit(); err != nil {
+		return err
+	}
+	registryLog.Infof("register %s success", e.keyOf(e.name))
+	return nil
+}
+
+func (e *EtcdRegistry) timeout() time.Duration {
+	if e.cfg.Timeout > 0 {
+		return e.cfg.Timeout
 	}
-	registryLog.Infof("register %s success", e.Key())
+	return 3 * time.Second
 }
 
 func (e *EtcdRegistry) Unregister() error {
-	_, err := e.cli.Delete(context.Background(), e.Key())
+	e.mux.Lock()
+	defer e.mux.Unlock()
+	e.lease = clientv3.NoLease
+	_, err := e.cli.Delete(context.Background(), e.keyOf(e.name))
 	return err
 }
diff --git a/src/metaserver/internal/usecase/logic/registry_logic.go b/src/metaserver/internal/usecase/logic/registry_logic.go
index 5655d0b..ee072fd 100644
--- a/src/metaserver/internal/usecase/logic/registry_logic.go
+++ b/src/metaserver/internal/usecase/logic/registry_logic.go
@@ -9,10 +9,9 @@ type Registry struct{}
 func NewRegistry() Registry { return Registry{} }
 
 func (Registry) OnLeaderChanged(isLeader bool) {
-	pool.Registry.Unregister()
 	if isLeader {
-		pool.Registry.AsMaster().Register(pool.Lifecycle.Lease())
+		pool.Registry.AsMaster().Refresh()
 	} else {
-		pool.Registry.AsSlave().Register(pool.Lifecycle.Lease())
+		pool.Registry.AsSlave().Refresh()
 	}
 }
-- 
2.43.0


From 14d7ffe00e435572617d50b5184614ee57df82dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 41/64] fix: never take an object whose file cannot be examined
 for existing or removed

---
 .../controller/http/objects/objects_rest.go   | 12 ++++--
 .../usecase/component/driver_manager.go       | 10 ++++-
 .../usecase/service/migration_service.go      | 13 +++---
 .../usecase/service/objects_service.go        | 42 ++++++++++++-------
 4 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/src/objectserver/internal/controller/http/objects/objects_rest.go b/src/objectserver/internal/controller/http/objects/objects_rest.go
index 999f2cf..80afe58 100644
--- a/src/objectserver/internal/controller/http/objects/objects_rest.go
+++ b/src/objectserver/internal/controller/http/objects/objects_rest.go
@@ -13,6 +13,7 @@ import (
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 	"objectserver/internal/usecase/service"
+	"os"
 
 	"github.com/gin-gonic/gin"
 	"github.com/gin-gonic/gin/binding"
@@ -121,9 +122,14 @@ func Get(c *gin.Context) {
 
 func Head(c *gin.Context) {
 	fileName := c.Param("name")
-	if ok := service.Exist(fileName); ok {
-		c.Status(http.StatusOK)
+	err := service.CheckExist(fileName)
+	if os.IsNotExist(err) {
+		c.Status(http.StatusNotFound)
 		return
 	}
-	c.Status(http.StatusNotFound)
+	if err != nil {
+		response.FailErr(err, c)
+		return
+	}
+	c.Status(http.StatusOK)
 }
diff --git a/src/objectserver/internal/usecase/component/driver_manager.go b/src/objectserver/internal/usecase/component/driver_manager.go
index 535d6ec..00fec85 100644
--- a/src/objectserver/internal/usecase/component/driver_manager.go
+++ b/src/objectserver/internal/usecase/component/driver_manager.go
@@ -104,14 +104,20 @@ func (dm *DriverManager) IsPathExist(path string) bool {
 	return false
 }
 
+// FindMountPath returns os.ErrNotExist only if the path is known not to exist at any mount point.
 func (dm *DriverManager) FindMountPath(path string) (string, error) {
+	res := os.ErrNotExist
 	for _, d := range dm.drivers {
 		fullPath := filepath.Join(d.MountPoint, path)
-		if _, err := os.Stat(fullPath); !os.IsNotExist(err) {
+		_, err := os.Stat(fullPath)
+		if err == nil {
 			return fullPath, nil
 		}
+		if !os.IsNotExist(err) {
+			res = err
+		}
 	}
-	return "", os.ErrNotExist
+	return "", res
 }
 
 func (dm *DriverManager) GetAllMountPoint() []string {
diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 25e6041..81d9010 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -264,9 +264,9 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 
 func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	// check file existed
-	realPath, ok := FindRealStoragePath(data.FileName)
-	if !ok {
-		return fmt.Errorf("file %s not exists", data.FileName)
+	realPath, err := FindRealStoragePath(data.FileName)
+	if err != nil {
+		return fmt.Errorf("file %s not exists: %w", data.FileName, err)
 	}
 	statInfo, err := os.Stat(realPath)
 	if err != nil {
@@ -316,8 +316,11 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 }
 
 func (ms *MigrationService) OpenFile(name string, size int64) (*os.File, error) {
-	path, ok := FindRealStoragePath(name)
-	if !ok {
+	path, err := FindRealStoragePath(name)
+	if err != nil && !os.IsNotExist(err) {
+		return nil, err
+	}
+	if err != nil {
 		path = filepath.Join(pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint), pool.Config.StoragePath, name)
 		util.LogErrWithPre("path-cache update", pool.PathDB.Put(name, path))
 	}
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index b43021a..2b6dde5 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -24,19 +24,25 @@ const (
 
 // Exist check if the file of object exists. the mark of an object is only valid as long as its file is there.
 func Exist(name string) bool {
-	if _, ok := FindRealStoragePath(name); !ok {
+	return CheckExist(name) == nil
+}
+
+// CheckExist is same as Exist, but returns os.ErrNotExist if there is no such object, or why it's unknown.
+func CheckExist(name string) error {
+	if _, err := FindRealStoragePath(name); err != nil {
 		UnMarkExist(name)
-		return false
+		return err
 	}
 	MarkExist(name)
-	return true
+	return nil
 }
 
-// FindRealStoragePath find storage path with real mount point of this file
-func FindRealStoragePath(fileName string) (string, bool) {
+// FindRealStoragePath find storage path with real mount point of this file.
+// returns os.ErrNotExist if it doesn't exist, other errors if it's unknown.
+func FindRealStoragePath(fileName string) (string, error) {
 	cached, err := global.PathDB.GetLast(fileName)
 	if err == nil && ExistPath(cached) {
-		return cached, true
+		return cached, nil
 	}
 	if err == nil {
 		// remove this no existed path from path-db
@@ -44,11 +50,11 @@ func FindRealStoragePath(fileName string) (string, bool) {
 	}
 	path, err := global.DriverManager.FindMountPath(filepath.Join(global.Config.StoragePath, fileName))
 	if err != nil {
-		return "", false
+		return "", err
 	}
 	// save path to path-cache
 	util.LogErr(global.PathDB.Put(fileName, path))
-	return path, true
+	return path, nil
 }
 
 // ExistPath check if the given path exists.
@@ -71,7 +77,7 @@ func UnMarkExist(name string) {
 
 // Put save object to storage path
 func Put(fileName string, fileStream io.Reader, compress bool) (err error) {
-	if Exist(fileName) {
+	if err = CheckExist(fileName); !os.IsNotExist(err) {
 		return
 	}
 
@@ -128,11 +134,14 @@ func syncFile(path string) (int64, error) {
 
 // Get read object to writer with provided size. pass to GetFile
 func Get(name string, offset, size int64, compress bool, writer io.Writer) (err error) {
-	fullPath, ok := FindRealStoragePath(name)
-	if !ok {
+	fullPath, err := FindRealStoragePath(name)
+	if os.IsNotExist(err) {
 		UnMarkExist(name)
 		return response.NewError(404, "object not found")
 	}
+	if err != nil {
+		return err
+	}
 	if compress {
 		err = GetFileCompress(fullPath, offset, size, writer)
 	} else {
@@ -182,11 +191,14 @@ func GetFile(fullPath string, offset, size int64, writer io.Writer) error {
 
 // Delete remove the object under the storage path
 func Delete(name string) error {
-	fullPath, ok := FindRealStoragePath(name)
-	if !ok {
+	fullPath, err := FindRealStoragePath(name)
+	if os.IsNotExist(err) {
 		UnMarkExist(name)
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 	size, err := DeleteFile(fullPath, "")
 	if err != nil {
 		return err
@@ -333,8 +345,8 @@ func WriteFileCompress(fullPath string, fileStream io.Reader) (int64, error) {
 
 // CommitFile move the temp file to storage path with a new name
 func CommitFile(mountPoint, tmpName, fileName string, compress bool) (err error) {
-	if Exist(fileName) {
-		return nil
+	if err = CheckExist(fileName); !os.IsNotExist(err) {
+		return err
 	}
 	filePath := filepath.Join(mountPoint, global.Config.StoragePath, fileName)
 	tempPath := filepath.Join(mountPoint, global.Config.TempPath, tmpName)
-- 
2.43.0


From 95a0609ed7bf31fa47b0f855fa307aa2e9667c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 42/64] fix: end the lifecycle of a server which is closed
 before its lease is kept alive

---
 src/common/registry/etcd_lifecycle.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/registry/etcd_lifecycle.go b/src/common/registry/etcd_lifecycle.go
index d9072de..942d157 100644
--- a/src/common/registry/etcd_lifecycle.go
+++ b/src/common/registry/etcd_lifecycle.go
@@ -66,6 +66,11 @@ func (lc *Lifecycle) DeadLoop() {
 		// keepalive new lease
 		response, err := lc.Client.KeepAlive(lc.ctx, lc.lease)
 		if err != nil {
+			if lc.ctx.Err() != nil {
+				// closed before keeping it alive
+				_, _ = lc.Client.Revoke(context.Background(), lc.lease)
+				return
+			}
 			registryLog.Errorf("could not keepalive for lifecycle lease %d, err: %s", lc.lease, err)
 			time.Sleep(5 * time.Second)
 			continue
-- 
2.43.0


From 54f4e25179d665f5717845d971fd1b8b49de2f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 43/64] fix: update the locate of a shard though some versions
 have fewer copies

---
 src/metaserver/internal/usecase/repo/metadata_repo.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 2ad9567..f58b162 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -328,8 +328,9 @@ func (m *MetadataRepo) UpdateLocateByHash(hash string, index int, value string,
 			if err != nil || v.Hash != hash {
 				continue
 			}
-			if index < 0 || index >= len(v.Locate) {
-				return usecase.ErrLocateIndex
+			// versions of the same hash may be stored with fewer copies
+			if index >= len(v.Locate) {
+				continue
 			}
 			// always newer than the original
 			if v.Ts++; ts > v.Ts {
-- 
2.43.0


From 37ec2877fa49b2993e8c2f9933c392f554fecabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 44/64] fix: start a new lifecycle when an object server joins
 again, never stop cleaning temp files

---
 src/objectserver/internal/app/app.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/objectserver/internal/app/app.go b/src/objectserver/internal/app/app.go
index 1645a02..f5b0f21 100644
--- a/src/objectserver/internal/app/app.go
+++ b/src/objectserver/internal/app/app.go
@@ -18,15 +18,16 @@ func Run(cfg *config.Config) {
 	pool.InitPool(cfg)
 	defer pool.CloseAll()
 	// init components
-	lifecycle := registry.NewLifecycle(pool.Etcd, cfg.Registry.Interval)
 	syncer := system.Syncer(pool.Etcd, cst.EtcdPrefix.FmtSystemInfo(cfg.Registry.Group, cfg.Registry.Name, cfg.Registry.SID()))
-	// lifecycle event
-	lifecycle.Subscribe(pool.Registry.Register)
-	lifecycle.Subscribe(func(id clientv3.LeaseID) {
-		syncer.LeaseID = id
-		_ = syncer.Sync()
-	})
 	pool.OnOpen(func() {
+		// a closed lifecycle is over, opening again starts a new one
+		lifecycle := registry.NewLifecycle(pool.Etcd, cfg.Registry.Interval)
+		// lifecycle event
+		lifecycle.Subscribe(pool.Registry.Register)
+		lifecycle.Subscribe(func(id clientv3.LeaseID) {
+			syncer.LeaseID = id
+			_ = syncer.Sync()
+		})
 		go lifecycle.DeadLoop()
 		pool.OnClose(
 			func() { lifecycle.Close() },
@@ -34,14 +35,14 @@ func Run(cfg *config.Config) {
 			func() { pool.Registry.Unregister() },
 			// locating serv
 			service.NewLocator(pool.Etcd).StartLocate(),
-			// cleaning serv
-			service.StartTempRemovalBackground(pool.Cache, pool.Config.TempCleaners),
 			// auto update driver stat
 			pool.DriverManager.StartAutoUpdate(),
 			// system info sync
 			syncer.StartAutoSave(),
 		)
 	})
+	// cleaning serv. temp files have to be removed no matter whether the server is open
+	defer service.StartTempRemovalBackground(pool.Cache, pool.Config.TempCleaners)()
 	pool.Open()
 	// warmup serv
 	service.WarmUpLocateCache()
-- 
2.43.0


From 8b9bda1f48f23c47f3717044552cfc066f20476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 45/64] fix: migrate objects completely or not at all

---
 .../controller/grpc/migration_server.go       |  23 +++-
 .../usecase/service/migration_service.go      | 126 +++++++++++++-----
 2 files changed, 112 insertions(+), 37 deletions(-)

diff --git a/src/objectserver/internal/controller/grpc/migration_server.go b/src/objectserver/internal/controller/grpc/migration_server.go
index c9b6327..2d43ac2 100644
--- a/src/objectserver/internal/controller/grpc/migration_server.go
+++ b/src/objectserver/internal/controller/grpc/migration_server.go
@@ -12,6 +12,7 @@ import (
 	"objectserver/internal/usecase/service"
 	"os"
 	"sync"
+	"sync/atomic"
 
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
@@ -28,13 +29,26 @@ func NewMigrationServer(service *service.MigrationService) *MigrationServer {
 }
 
 func (ms *MigrationServer) ReceiveData(stream pb.ObjectMigration_ReceiveDataServer) (err error) {
-	var file io.WriteCloser
+	var file *service.ReceivingFile
 	var data *pb.ObjectData
-	defer util.CloseAndLog(file)
+	defer func() {
+		if file != nil {
+			util.CloseAndLog(file)
+		}
+	}()
 	logs.Std().Debug("start receive data...")
 	for {
 		data, err = stream.Recv()
 		if err == io.EOF {
+			// all data is received
+			if file == nil {
+				err = errors.New("received no data")
+			} else {
+				err = file.Commit()
+			}
+			if err != nil {
+				break
+			}
 			return stream.SendMsg(&pb.Response{Success: true})
 		}
 		if err != nil {
@@ -132,7 +146,7 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 		cliMap[k] = pb.NewObjectMigrationClient(cc)
 	}
 	wg := sync.WaitGroup{}
-	success := true
+	var failed atomic.Bool
 	// sending request to all servers
 	for k, v := range sizeMap {
 		wg.Add(1)
@@ -143,12 +157,13 @@ func (ms *MigrationServer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Respo
 				RequiredSize:  value,
 				TargetAddress: curLocate,
 			}); inner != nil {
-				success = false
+				failed.Store(true)
 				logs.Std().Error(inner)
 			}
 		}(k, v)
 	}
 	wg.Wait()
+	success := !failed.Load()
 	return &pb.Response{
 		Success: success,
 		Message: util.IfElse(success, "ok", "see logs for detail"),
diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 81d9010..2b63471 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"net/http"
 	"objectserver/internal/db"
+	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
 	"objectserver/internal/usecase/webapi"
 	"os"
@@ -184,22 +185,27 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 		clientMap[k] = pb.NewObjectMigrationClient(cc)
 		metric[k] = &atomic.Int32{}
 	}
-	success := true
+	var failed atomic.Bool
 	dg := util.LimitDoneGroup(128)
 	go func() {
-		defer graceful.Recover(func(string) { success = false })
 		defer dg.Close()
+		defer graceful.Recover(func(string) { failed.Store(true) })
 		cur := slices.First(addrs)
 		slices.RemoveFirst(&addrs)
 		leftSize := sizeMap[cur]
 		var err error
 		for _, mp := range pool.DriverManager.GetAllMountPoint() {
 			err = filepath.Walk(filepath.Join(mp, pool.Config.StoragePath), func(path string, info fs.FileInfo, err error) error {
+				if os.IsNotExist(err) {
+					// migrated or removed meanwhile
+					return nil
+				}
 				if err != nil {
-					msLog.Errorf("walk path %s err: %s, will skip this path", path, err)
+					dg.Errors(fmt.Errorf("walk path %s err: %w, will skip this path", path, err))
 					return nil
 				}
-				if info.IsDir() {
+				// a temp file is not an object
+				if info.IsDir() || strings.HasPrefix(info.Name(), entity.TempKeyPrefix) {
 					return nil
 				}
 				client := clientMap[cur]
@@ -215,15 +221,11 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 						dg.Errors(inner)
 						return
 					}
-					// remove file async if transfer success
-					go func() {
-						defer graceful.Recover()
-						metric[toAddr].Add(1)
-						// remove local file
-						if inner := Delete(info.Name()); inner != nil {
-							msLog.Errorf("migrate %s success, but delete fail: %s", path, err)
-						}
-					}()
+					metric[toAddr].Add(1)
+					// remove local file if transfer success
+					if inner := Delete(info.Name()); inner != nil {
+						dg.Errors(fmt.Errorf("migrate %s success, but delete fail: %w", path, inner))
+					}
 				}(cur)
 				// switch to next server if already exceeds left size
 				if leftSize -= info.Size(); leftSize <= 0 {
@@ -252,14 +254,14 @@ func (ms *MigrationService) SendingTo(httpLocate string, sizeMap map[string]int6
 	}()
 	for err := range dg.WaitError() {
 		msLog.Error(err)
-		success = false
+		failed.Store(true)
 	}
 	resultStr := strings.Builder{}
 	for k, v := range metric {
 		resultStr.WriteString(fmt.Sprintf("\t'%s': %d\n", k, v.Load()))
 	}
 	msLog.Infof("migration result (nums of success files):\n%s", resultStr.String())
-	return util.IfElse(success, nil, fmt.Errorf("migration fail, see logs for detail"))
+	return util.IfElse(failed.Load(), fmt.Errorf("migration fail, see logs for detail"), nil)
 }
 
 func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
@@ -275,8 +277,6 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	if statInfo.Size() != data.Size {
 		return fmt.Errorf("file %s size excpect %d, actual %d", data.FileName, data.Size, statInfo.Size())
 	}
-	// add to capacity db
-	pool.ObjectCap.AddCap(data.Size)
 	newLoc, ok := pool.Discovery.GetService(pool.Config.Registry.Name, pool.Config.Registry.SID())
 	if !ok {
 		return fmt.Errorf("server unregister yet")
@@ -308,32 +308,92 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 		}(addr)
 	}
 	wg.Wait()
-	if fails := failNum.Load(); fails >= int32(xmath.CeilDiv(len(servs), 2)) {
+	// the origin will be removed, so no server may keep the old locate
+	if fails := failNum.Load(); fails > 0 {
 		return fmt.Errorf("too much failures when updating metadata (%d/%d)", fails, len(servs))
 	}
 	msLog.Debugf("success finish object %s", data.FileName)
 	return nil
 }
 
-func (ms *MigrationService) OpenFile(name string, size int64) (*os.File, error) {
+// ReceivingFile is a file being received, which is not an object until it is committed
+type ReceivingFile struct {
+	*os.File
+	name     string
+	fullPath string
+	size     int64
+	done     bool
+}
+
+// Commit makes an object of the received file if it is complete
+func (rf *ReceivingFile) Commit() error {
+	info, err := rf.Stat()
+	if err != nil {
+		return err
+	}
+	if info.Size() != rf.size {
+		return fmt.Errorf("file %s size excpect %d, actual %d", rf.name, rf.size, info.Size())
+	}
+	receivingMux.Lock()
+	defer receivingMux.Unlock()
+	if err = checkReceived(rf.name, rf.size); os.IsExist(err) {
+		// received from another server meanwhile
+		return nil
+	} else if err != nil {
+		return err
+	}
+	if err = publishFile(rf.Name(), rf.fullPath, rf.name); err != nil {
+		return err
+	}
+	rf.done = true
+	return nil
+}
+
+// Close removes the file unless it is committed
+func (rf *ReceivingFile) Close() error {
+	err := rf.File.Close()
+	if !rf.done {
+		err = errors.Join(err, os.Remove(rf.Name()))
+	}
+	return err
+}
+
+var receivingMux sync.Mutex
+
+// checkReceived returns os.ErrExist if there is the same object. An object of another size will be removed.
+func checkReceived(name string, size int64) error {
 	path, err := FindRealStoragePath(name)
-	if err != nil && !os.IsNotExist(err) {
-		return nil, err
+	if os.IsNotExist(err) {
+		return nil
 	}
 	if err != nil {
-		path = filepath.Join(pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint), pool.Config.StoragePath, name)
-		util.LogErrWithPre("path-cache update", pool.PathDB.Put(name, path))
+		return err
 	}
 	stat, err := os.Stat(path)
-	if err == nil {
-		// if size equals, see as existed
-		if stat.Size() == size {
-			return nil, os.ErrExist
-		}
-		// some file may migrate failure. remove it if exists.
-		if err = os.Remove(path); err != nil {
-			return nil, err
-		}
+	if err != nil {
+		return err
+	}
+	// if size equals, see as existed
+	if stat.Size() == size {
+		return os.ErrExist
+	}
+	// some file may migrate failure. remove it if exists.
+	return Delete(name)
+}
+
+// OpenFile prepares to receive an object. returns os.ErrExist if it is already here.
+func (ms *MigrationService) OpenFile(name string, size int64) (*ReceivingFile, error) {
+	receivingMux.Lock()
+	err := checkReceived(name, size)
+	receivingMux.Unlock()
+	if err != nil {
+		return nil, err
+	}
+	mp := pool.DriverManager.SelectMountPointFallback(pool.Config.BaseMountPoint)
+	// an object which is incomplete should never be seen
+	file, err := os.OpenFile(filepath.Join(mp, pool.Config.TempPath, GenerateTempID()), os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	if err != nil {
+		return nil, err
 	}
-	return os.OpenFile(path, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
+	return &ReceivingFile{File: file, name: name, fullPath: filepath.Join(mp, pool.Config.StoragePath, name), size: size}, nil
 }
-- 
2.43.0


From dcc86daeb5475a216266b5ada8c7771e50cac76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 46/64] fix: never reuse version numbers after all versions
 were removed

---
 .../internal/usecase/logic/metadata_logic.go      | 15 +++++++++++++++
 .../internal/usecase/repo/batch_meta_repo.go      |  8 ++------
 .../internal/usecase/repo/metadata_repo.go        |  8 ++------
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 3e1cd56..314d5e7 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -314,6 +314,21 @@ func RemoveVersionBucket(tx *bolt.Tx, name string) error {
 	return getVersionRoot(tx).DeleteBucket(util.StrToBytes(name))
 }
 
+// ClearVersionBucket removes all versions, but goes on counting where it was
+func ClearVersionBucket(tx *bolt.Tx, name string) error {
+	var seq uint64
+	if b := GetVersionBucket(tx, name); b != nil {
+		seq = b.Sequence()
+	}
+	if err := RemoveVersionBucket(tx, name); err != nil {
+		return err
+	}
+	if err := CreateVersionBucket(tx, name); err != nil {
+		return err
+	}
+	return GetVersionBucket(tx, name).SetSequence(seq)
+}
+
 func removeIndexes(tx *bolt.Tx, key string, data *msg.Version) error {
 	if err := NewHashIndexLogic().RemoveIndex(data.Hash, key)(tx); err != nil {
 		return fmt.Errorf("remove hash-index err: %w", err)
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index f48784f..89a4d49 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -68,11 +68,7 @@ func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error
 
 func (br *BatchMetaRepo) RemoveAllVersion(id string) error {
 	return br.repo.writeAll(id, br.Storage.Batch, func(tx *bolt.Tx) error {
-		// delete bucket
-		if err := logic.RemoveVersionBucket(tx, id); err != nil {
-			return err
-		}
-		// create an empty bucket
-		return logic.CreateVersionBucket(tx, id)
+		// numbers of removed versions are not used again
+		return logic.ClearVersionBucket(tx, id)
 	})
 }
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index f58b162..ea4751a 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -132,12 +132,8 @@ func (m *MetadataRepo) RemoveVersion(name string, ver uint64) error {
 
 func (m *MetadataRepo) RemoveAllVersion(name string) error {
 	return m.writeAll(name, m.MainDB.Update, func(tx *bolt.Tx) error {
-		// delete bucket
-		if err := logic.RemoveVersionBucket(tx, name); err != nil {
-			return err
-		}
-		// create an empty bucket
-		return logic.CreateVersionBucket(tx, name)
+		// numbers of removed versions are not used again
+		return logic.ClearVersionBucket(tx, name)
 	})
 }
 
-- 
2.43.0


From 9c767195e0ca752e5da422ce5532bbc78c0cf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 47/64] fix: keep the infos of uploads apart from cached
 objects

---
 src/objectserver/internal/app/app.go                  |  2 +-
 .../internal/controller/http/temp/temp_mid.go         |  2 +-
 src/objectserver/internal/usecase/pool/instance.go    | 11 +++++++++++
 .../internal/usecase/service/temp_service.go          |  6 +++---
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/objectserver/internal/app/app.go b/src/objectserver/internal/app/app.go
index f5b0f21..f27cfbd 100644
--- a/src/objectserver/internal/app/app.go
+++ b/src/objectserver/internal/app/app.go
@@ -42,7 +42,7 @@ func Run(cfg *config.Config) {
 		)
 	})
 	// cleaning serv. temp files have to be removed no matter whether the server is open
-	defer service.StartTempRemovalBackground(pool.Cache, pool.Config.TempCleaners)()
+	defer service.StartTempRemovalBackground(pool.TempCache, pool.Config.TempCleaners)()
 	pool.Open()
 	// warmup serv
 	service.WarmUpLocateCache()
diff --git a/src/objectserver/internal/controller/http/temp/temp_mid.go b/src/objectserver/internal/controller/http/temp/temp_mid.go
index de768c5..672d3ab 100644
--- a/src/objectserver/internal/controller/http/temp/temp_mid.go
+++ b/src/objectserver/internal/controller/http/temp/temp_mid.go
@@ -9,7 +9,7 @@ import (
 
 func FilterExpired(c *gin.Context) {
 	id := c.Param("name")
-	if !pool.Cache.Has(id) {
+	if !pool.TempCache.Has(id) {
 		c.AbortWithStatus(http.StatusNotFound)
 	}
 }
diff --git a/src/objectserver/internal/usecase/pool/instance.go b/src/objectserver/internal/usecase/pool/instance.go
index 2e8a790..dafc4f6 100644
--- a/src/objectserver/internal/usecase/pool/instance.go
+++ b/src/objectserver/internal/usecase/pool/instance.go
@@ -31,6 +31,7 @@ var (
 	PathDB        *db.PathCache
 	DriverManager *component.DriverManager
 	Cache         cache.ICache
+	TempCache     cache.ICache // TempCache holds the infos of temporary files apart from Cache, so that caching objects never evicts them
 	Registry      *registry.EtcdRegistry
 	Discovery     registry.Discovery
 )
@@ -137,6 +138,15 @@ func initCache(cfg *config.CacheConfig) {
 	cacheConf.Verbose = false
 	cacheConf.MaxEntriesInWindow = int(cfg.MaxSize / cfg.MaxItemSize)
 	Cache = cache.NewCache(cacheConf)
+	// An entry bigger than the free room of its shard evicts everything else of it. The infos
+	// of uploads in progress must not share shards with objects of any size.
+	tempConf := bigcache.DefaultConfig(cfg.TTL)
+	tempConf.CleanWindow = cfg.CleanInterval
+	tempConf.MaxEntrySize = int(datasize.KB)
+	tempConf.Shards = 64
+	tempConf.Verbose = false
+	tempConf.MaxEntriesInWindow = 1024
+	TempCache = cache.NewCache(tempConf)
 }
 
 func initEtcd(cfg *etcd.Config) {
@@ -161,6 +171,7 @@ func initRegister(et *clientv3.Client, cfg *config.Config) {
 func CloseAll() {
 	defer Etcd.Close()
 	defer Cache.Close()
+	defer TempCache.Close()
 	defer PathDB.Close()
 	defer Close()
 }
diff --git a/src/objectserver/internal/usecase/service/temp_service.go b/src/objectserver/internal/usecase/service/temp_service.go
index e0ff56c..4be69b9 100644
--- a/src/objectserver/internal/usecase/service/temp_service.go
+++ b/src/objectserver/internal/usecase/service/temp_service.go
@@ -15,15 +15,15 @@ import (
 )
 
 func SetTempInfo(t *entity.TempInfo) bool {
-	return pool.Cache.SetGob(t.Id, t)
+	return pool.TempCache.SetGob(t.Id, t)
 }
 
 func GetTempInfo(key string) (*entity.TempInfo, bool) {
-	return cache.GetGob[entity.TempInfo](pool.Cache, key)
+	return cache.GetGob[entity.TempInfo](pool.TempCache, key)
 }
 
 func RemoveTempInfo(key string) {
-	pool.Cache.Delete(key)
+	pool.TempCache.Delete(key)
 }
 
 func GenerateTempID() string {
-- 
2.43.0


From 4aa8edd8fd7d8633fa046174fbd2fe600e50611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 48/64] fix: give up an upload whose broken part cannot be cut
 off

---
 .../internal/controller/http/temp/temp_rest.go            | 5 +++++
 .../internal/usecase/service/objects_service.go           | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/objectserver/internal/controller/http/temp/temp_rest.go b/src/objectserver/internal/controller/http/temp/temp_rest.go
index 8b27cac..58169d0 100644
--- a/src/objectserver/internal/controller/http/temp/temp_rest.go
+++ b/src/objectserver/internal/controller/http/temp/temp_rest.go
@@ -6,6 +6,7 @@ import (
 	"common/response"
 	"common/util"
 	xmath "common/util/math"
+	"errors"
 	"net/http"
 	"objectserver/internal/entity"
 	"objectserver/internal/usecase/pool"
@@ -28,6 +29,10 @@ func Patch(g *gin.Context) {
 	// for reading from network-io, using too big buffer is not wise.
 	bufSize := xmath.MinInt(int(g.Request.ContentLength), 2*cst.OS.PageSize)
 	if _, err := service.AppendFileAligned(ti.FullPath, g.Request.Body, bufSize); err != nil {
+		if errors.Is(err, service.ErrTornFile) {
+			// nothing may be appended to it
+			service.RemoveTempInfo(id)
+		}
 		response.FailErr(err, g)
 		return
 	}
diff --git a/src/objectserver/internal/usecase/service/objects_service.go b/src/objectserver/internal/usecase/service/objects_service.go
index 2b6dde5..2285594 100644
--- a/src/objectserver/internal/usecase/service/objects_service.go
+++ b/src/objectserver/internal/usecase/service/objects_service.go
@@ -9,6 +9,7 @@ import (
 	"common/system/disk"
 	"common/util"
 	"common/util/math"
+	"errors"
 	"fmt"
 	"io"
 	global "objectserver/internal/usecase/pool"
@@ -269,6 +270,9 @@ func WriteFileWithSize(fullPath string, curSize int64, fileStream io.Reader, buf
 	return io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
 }
 
+// ErrTornFile means that an appending failed halfway and what it has written can not be cut off
+var ErrTornFile = errors.New("file is torn")
+
 // AppendFileAligned will append data to file and work with DIO. make sure size of each write is a multiple of 4096 (except last)
 func AppendFileAligned(fullPath string, fileStream io.Reader, bufSize int) (int64, error) {
 	file, err := disk.OpenFileDirectIO(fullPath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, cst.OS.ModeUser)
@@ -283,7 +287,9 @@ func AppendFileAligned(fullPath string, fileStream io.Reader, bufSize int) (int6
 	n, err := io.CopyBuffer(file, disk.PaddingReader(fileStream), disk.AlignedBlock(bufSize))
 	if err != nil {
 		// never leave a part of data
-		util.LogErr(file.Truncate(info.Size()))
+		if e := file.Truncate(info.Size()); e != nil {
+			return 0, fmt.Errorf("%w: %v, %v", ErrTornFile, err, e)
+		}
 		return 0, err
 	}
 	return n, nil
-- 
2.43.0


From 47012cb8ab931dc1123c9a0fe7a6c39ff18b4538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 49/64] fix: keep times and version numbers of migrated records

---
 src/metaserver/internal/usecase/interfaces.go   |  7 +++++--
 .../internal/usecase/logic/metadata_logic.go    | 10 ++++++++++
 .../internal/usecase/raftimpl/fsm_impl.go       |  2 ++
 .../internal/usecase/repo/batch_meta_repo.go    |  7 +++++++
 .../usecase/repo/metadata_cache_repo.go         |  4 ++++
 .../internal/usecase/repo/metadata_repo.go      | 16 ++++++++++++++--
 .../internal/usecase/service/bucket_service.go  |  8 ++++++++
 .../usecase/service/hashslot_service.go         | 13 +++++++------
 .../usecase/service/metadata_service.go         | 17 ++++++++++++++++-
 9 files changed, 73 insertions(+), 11 deletions(-)

diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 9e650b9..9e5aa76 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -14,7 +14,7 @@ import (
 type (
 	MetadataRpcService interface {
 		ForeachVersionBytes(string, func([]byte) bool)
-		GetMetadataBytes(string) ([]byte, error)
+		GetMetadataBytes(string) ([]byte, uint64, error)
 		FilterKeys(fn func(string) bool) []string
 		FindByHash(hash string) (res []*msg.Version, err error)
 		UpdateLocates(hash string, locateIndex int, locate string) error
@@ -22,6 +22,7 @@ type (
 
 	IMetadataService interface {
 		MetadataRpcService
+		ReceiveMetadata(string, *msg.Metadata, uint64) error
 		ReceiveVersion(string, *msg.Version) error
 		AddMetadata(string, *msg.Metadata) error
 		AddVersion(string, *msg.Version) (int, error)
@@ -42,6 +43,7 @@ type (
 		UpdateVersion(string, *msg.Version) error
 		RemoveMetadata(string) error
 		RemoveVersion(string, uint64) error
+		AddMetadataFromRaft(string, *msg.Metadata, uint64) error
 		AddVersionFromRaft(string, *msg.Version) error
 		RemoveAllVersion(string) error
 	}
@@ -88,7 +90,7 @@ type (
 		GetLastVersionNumber(id string) uint64
 		GetFirstVersionNumber(id string) uint64
 		ForeachVersionBytes(string, func([]byte) bool)
-		GetMetadataBytes(string) ([]byte, error)
+		GetMetadataBytes(string) ([]byte, uint64, error)
 		GetExtra(id string) (*msg.Extra, error)
 	}
 
@@ -144,5 +146,6 @@ type (
 
 	BucketService interface {
 		BucketRepo
+		Receive(bucket *msg.Bucket) error
 	}
 )
diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index 314d5e7..ad1faba 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -54,6 +54,16 @@ func AddMeta(id string, data *msg.Metadata) TxFunc {
 	}
 }
 
+// AddMetaWithSequence only if data is migrated from others, goes on counting versions from there
+func AddMetaWithSequence(id string, data *msg.Metadata, sequence uint64) TxFunc {
+	return func(tx *bolt.Tx) error {
+		if err := AddMeta(id, data)(tx); err != nil {
+			return err
+		}
+		return GetVersionBucket(tx, id).SetSequence(sequence)
+	}
+}
+
 func RemoveMeta(name string) TxFunc {
 	return func(tx *bolt.Tx) error {
 		key := util.StrToBytes(name)
diff --git a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
index 7554d93..7a578cb 100644
--- a/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
+++ b/src/metaserver/internal/usecase/raftimpl/fsm_impl.go
@@ -53,6 +53,8 @@ func (f *FSMImpl) applyBucket(data *entity.RaftData) *FSMResponse {
 func (f *FSMImpl) applyMetadata(data *entity.RaftData) *FSMResponse {
 	repo := util.IfElse[WritableRepo](data.Batch, f.metaBatch, f.metaRepo)
 	switch data.Type {
+	case entity.LogMigrate:
+		return FSMResult(repo.AddMetadataFromRaft(data.Name, data.Metadata, data.Sequence))
 	case entity.LogInsert:
 		return FSMResult(repo.AddMetadata(data.Name, data.Metadata))
 	case entity.LogRemove:
diff --git a/src/metaserver/internal/usecase/repo/batch_meta_repo.go b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
index 89a4d49..1f04c9d 100644
--- a/src/metaserver/internal/usecase/repo/batch_meta_repo.go
+++ b/src/metaserver/internal/usecase/repo/batch_meta_repo.go
@@ -59,6 +59,13 @@ func (br *BatchMetaRepo) RemoveMetadata(name string) error {
 	return br.repo.writeAll(name, br.Storage.Batch, logic.RemoveMeta(name))
 }
 
+func (br *BatchMetaRepo) AddMetadataFromRaft(id string, data *msg.Metadata, sequence uint64) error {
+	if data == nil {
+		return usecase.ErrNilData
+	}
+	return br.repo.write(id, br.Storage.Batch, logic.AddMetaWithSequence(id, data, sequence))
+}
+
 func (br *BatchMetaRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
diff --git a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
index 420305c..5804991 100644
--- a/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_cache_repo.go
@@ -126,6 +126,10 @@ func (m *MetadataCacheRepo) RemoveAllVersion(string) error {
 	panic("not impl RemoveAllVersion")
 }
 
+func (m *MetadataCacheRepo) AddMetadataFromRaft(s string, metadata *msg.Metadata, _ uint64) error {
+	return m.AddMetadata(s, metadata)
+}
+
 func (m *MetadataCacheRepo) AddVersionFromRaft(s string, version *msg.Version) error {
 	return m.AddVersion(s, version)
 }
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index ea4751a..953e1c4 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -106,6 +106,13 @@ func (m *MetadataRepo) AddVersion(id string, data *msg.Version) error {
 	return m.write(id, m.MainDB.Update, logic.AddVer(id, data))
 }
 
+func (m *MetadataRepo) AddMetadataFromRaft(id string, data *msg.Metadata, sequence uint64) error {
+	if data == nil {
+		return usecase.ErrNilData
+	}
+	return m.write(id, m.MainDB.Update, logic.AddMetaWithSequence(id, data, sequence))
+}
+
 func (m *MetadataRepo) AddVersionFromRaft(id string, data *msg.Version) error {
 	if data == nil {
 		return usecase.ErrNilData
@@ -279,9 +286,14 @@ func (m *MetadataRepo) ForeachVersionBytes(name string, fn func([]byte) bool) {
 	})
 }
 
-func (m *MetadataRepo) GetMetadataBytes(key string) ([]byte, error) {
+// GetMetadataBytes returns metadata and the maximum version number that has ever been used
+func (m *MetadataRepo) GetMetadataBytes(key string) ([]byte, uint64, error) {
 	var res []byte
+	var seq uint64
 	err := m.MainDB.View(func(tx *bolt.Tx) error {
+		if buk := logic.GetVersionBucket(tx, key); buk != nil {
+			seq = buk.Sequence()
+		}
 		v := logic.GetMetadataBucket(tx).Get(util.StrToBytes(key))
 		if v == nil {
 			return usecase.ErrNotFound
@@ -290,7 +302,7 @@ func (m *MetadataRepo) GetMetadataBytes(key string) ([]byte, error) {
 		res, _ = io.ReadAll(bytes.NewBuffer(v))
 		return nil
 	})
-	return res, err
+	return res, seq, err
 }
 
 func (m *MetadataRepo) GetExtra(id string) (*msg.Extra, error) {
diff --git a/src/metaserver/internal/usecase/service/bucket_service.go b/src/metaserver/internal/usecase/service/bucket_service.go
index cf949ac..375c780 100644
--- a/src/metaserver/internal/usecase/service/bucket_service.go
+++ b/src/metaserver/internal/usecase/service/bucket_service.go
@@ -23,6 +23,14 @@ func (b *BucketService) Create(bucket *msg.Bucket) error {
 	}
 	bucket.CreateTime = time.Now().UnixMilli()
 	bucket.UpdateTime = bucket.CreateTime
+	return b.Receive(bucket)
+}
+
+// Receive adds a bucket as it is on the server it comes from
+func (b *BucketService) Receive(bucket *msg.Bucket) error {
+	if bucket == nil {
+		return usecase.ErrNilData
+	}
 	if ok, _, err := b.ApplyRaft(&entity.RaftData{
 		Type:   entity.LogInsert,
 		Dest:   entity.DestBucket,
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 729052b..8d26547 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -205,13 +205,13 @@ func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.Service.AddMetadata(item.Name, &i)
+		err = h.Service.ReceiveMetadata(item.Name, &i, item.Sequence)
 	case entity.DestBucket:
 		var i msg.Bucket
 		if err = util.DecodeMsgp(&i, item.Data); err != nil {
 			return err
 		}
-		err = h.BucketService.Create(&i)
+		err = h.BucketService.Receive(&i)
 	default:
 		hsLog.Errorf("unknown migration item: %d", item.Dest)
 	}
@@ -280,16 +280,17 @@ func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveCli
 	for len(metaKeys) > 0 {
 		key := metaKeys[0]
 		metaKeys = metaKeys[1:] // for earlier GC
-		data, err := h.Service.GetMetadataBytes(key)
+		data, seq, err := h.Service.GetMetadataBytes(key)
 		if err != nil {
 			errs = append(errs, err)
 			continue
 		}
 		// send data
 		if err = stream.Send(&pb.MigrationItem{
-			Name: key,
-			Data: data,
-			Dest: int32(entity.DestMetadata),
+			Name:     key,
+			Data:     data,
+			Dest:     int32(entity.DestMetadata),
+			Sequence: seq,
 		}); err != nil {
 			hsLog.Debugf("send metadata %s err: %s", key, err)
 			errs = append(errs, err)
diff --git a/src/metaserver/internal/usecase/service/metadata_service.go b/src/metaserver/internal/usecase/service/metadata_service.go
index a4c2e64..0660417 100644
--- a/src/metaserver/internal/usecase/service/metadata_service.go
+++ b/src/metaserver/internal/usecase/service/metadata_service.go
@@ -58,6 +58,21 @@ func (m *MetadataService) AddVersion(name string, data *msg.Version) (int, error
 	return int(data.Sequence), nil
 }
 
+// ReceiveMetadata adds metadata as it is on the server it comes from
+func (m *MetadataService) ReceiveMetadata(id string, data *msg.Metadata, sequence uint64) error {
+	if ok, _, err := m.ApplyRaft(&entity.RaftData{
+		Type:     entity.LogMigrate,
+		Dest:     entity.DestMetadata,
+		Name:     id,
+		Sequence: sequence,
+		Metadata: data,
+	}); ok {
+		return err
+	}
+
+	return m.repo.AddMetadataFromRaft(id, data, sequence)
+}
+
 func (m *MetadataService) ReceiveVersion(name string, data *msg.Version) error {
 	if ok, _, err := m.ApplyRaft(&entity.RaftData{
 		Type:    entity.LogMigrate,
@@ -202,7 +217,7 @@ func (m *MetadataService) ForeachVersionBytes(name string, fn func([]byte) bool)
 	m.repo.ForeachVersionBytes(name, fn)
 }
 
-func (m *MetadataService) GetMetadataBytes(name string) ([]byte, error) {
+func (m *MetadataService) GetMetadataBytes(name string) ([]byte, uint64, error) {
 	return m.repo.GetMetadataBytes(name)
 }
 
-- 
2.43.0


From dcb35aff0ad97fe0c92092d68682e982816fe529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 50/64] fix: migrate slots of a server that has no records yet

---
 src/metaserver/internal/usecase/logic/metadata_logic.go | 3 +++
 src/metaserver/internal/usecase/repo/bucket_repo.go     | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/usecase/logic/metadata_logic.go b/src/metaserver/internal/usecase/logic/metadata_logic.go
index ad1faba..768bc15 100644
--- a/src/metaserver/internal/usecase/logic/metadata_logic.go
+++ b/src/metaserver/internal/usecase/logic/metadata_logic.go
@@ -21,6 +21,9 @@ const (
 func ForeachKeys(fn func(string) bool) TxFunc {
 	return func(tx *bolt.Tx) error {
 		root := GetMetadataBucket(tx)
+		if root == nil {
+			return nil
+		}
 		return root.ForEach(func(k, v []byte) error {
 			if !fn(string(k)) {
 				return ErrNotFound
diff --git a/src/metaserver/internal/usecase/repo/bucket_repo.go b/src/metaserver/internal/usecase/repo/bucket_repo.go
index 0ffbb89..bd3ce34 100644
--- a/src/metaserver/internal/usecase/repo/bucket_repo.go
+++ b/src/metaserver/internal/usecase/repo/bucket_repo.go
@@ -30,7 +30,12 @@ func (b *BucketRepo) write(name string, tx func(usecase.TxFunc) error, fn usecas
 }
 
 func (b *BucketRepo) Foreach(fn func(k []byte, v []byte) error) error {
-	return b.db.View(b.logic.Foreach(fn))
+	err := b.db.View(b.logic.Foreach(fn))
+	// ignore not found err.
+	if errors.Is(err, usecase.ErrNotFound) {
+		err = nil
+	}
+	return err
 }
 
 func (b *BucketRepo) Get(name string) (res *msg.Bucket, err error) {
-- 
2.43.0


From 1768d490ce0485cde639765f023be8166a280892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 51/64] fix: move slots and their data as a whole

---
 src/metaserver/internal/app/app.go            |   3 +-
 .../internal/controller/grpc/grpc.go          |   2 +-
 .../controller/grpc/hashslot_server.go        |  17 +-
 .../internal/controller/grpc/middleware.go    |  14 +-
 .../internal/controller/http/middleware.go    |  12 +-
 .../internal/usecase/db/hashslot_db.go        | 116 +++-
 src/metaserver/internal/usecase/interfaces.go |  11 +-
 .../internal/usecase/logic/hashslot_logic.go  |  21 +-
 .../usecase/logic/raft_cluster_logic.go       |   6 +-
 .../usecase/service/hashslot_service.go       | 510 ++++++++++++------
 10 files changed, 492 insertions(+), 220 deletions(-)

diff --git a/src/metaserver/internal/app/app.go b/src/metaserver/internal/app/app.go
index 4b18e60..d08a4b8 100644
--- a/src/metaserver/internal/app/app.go
+++ b/src/metaserver/internal/app/app.go
@@ -74,7 +74,8 @@ func Run(cfg *config.Config) {
 		if err == nil && ok {
 			cfg.HashSlot.Slots = slot.Slots
 		}
-		if !raftWrapper.Enabled {
+		// a server without slots must not get those of the default configuration on next start
+		if !raftWrapper.Enabled && len(cfg.HashSlot.Slots) > 0 {
 			util.LogErr(pool.HashSlot.Remove(cfg.HashSlot.StoreID))
 		}
 	}()
diff --git a/src/metaserver/internal/controller/grpc/grpc.go b/src/metaserver/internal/controller/grpc/grpc.go
index dd9db2a..e9d83cb 100644
--- a/src/metaserver/internal/controller/grpc/grpc.go
+++ b/src/metaserver/internal/controller/grpc/grpc.go
@@ -26,8 +26,8 @@ func NewRpcServer(maxStreams uint32, rw *raftimpl.RaftWrapper, serv1 usecase.IMe
 		util.CommonStreamInterceptors(),
 		grpc.MaxConcurrentStreams(maxStreams),
 		grpc.ChainUnaryInterceptor(
-			CheckKeySlot,
 			CheckWritableUnary,
+			CheckKeySlot,
 			CheckRaftEnabledUnary,
 			CheckRaftLeaderUnary,
 			CheckRaftNonLeaderUnary,
diff --git a/src/metaserver/internal/controller/grpc/hashslot_server.go b/src/metaserver/internal/controller/grpc/hashslot_server.go
index cff0de6..7a041ab 100644
--- a/src/metaserver/internal/controller/grpc/hashslot_server.go
+++ b/src/metaserver/internal/controller/grpc/hashslot_server.go
@@ -20,7 +20,7 @@ func NewHashSlotServer(serv usecase.IHashSlotService) *HashSlotServer {
 }
 
 func (h *HashSlotServer) PrepareMigration(_ context.Context, req *pb.PrepareReq) (*pb.Response, error) {
-	if err := h.Service.PrepareMigrationFrom(req.GetLocation(), req.GetSlots()); err != nil {
+	if err := h.Service.PrepareMigrationFrom(req.GetId(), req.GetLocation(), req.GetSlots()); err != nil {
 		return &pb.Response{Success: false, Message: err.Error()}, nil
 	}
 	return okResp, nil
@@ -37,20 +37,23 @@ func (h *HashSlotServer) StartMigration(_ context.Context, req *pb.MigrationReq)
 }
 
 func (h *HashSlotServer) StreamingReceive(stream pb.HashSlot_StreamingReceiveServer) (err error) {
+	receiver, err := h.Service.StartReceive()
+	if err != nil {
+		return err
+	}
 	defer func() {
 		if err != nil {
 			log.Errorf("stream receive abort, migrate failed: %s", err)
-			if err2 := h.Service.FinishReceiveItem(false); err2 != nil {
+			if err2 := receiver.Finish(false); err2 != nil {
 				err = fmt.Errorf("%w: %s", err2, err)
 			}
-		} else if err = h.Service.FinishReceiveItem(true); err == nil {
+		} else if err = receiver.Finish(true); err == nil {
 			log.Info("stream closed, migrate success")
 		}
 	}()
-	var resp pb.Response
 	var item *pb.MigrationItem
 	for {
-		resp.Success, resp.Message = true, "ok"
+		resp := pb.Response{Success: true, Message: "ok"}
 		item, err = stream.Recv()
 		// if client side close send
 		if err == io.EOF {
@@ -60,9 +63,9 @@ func (h *HashSlotServer) StreamingReceive(stream pb.HashSlot_StreamingReceiveSer
 		if err != nil {
 			return
 		}
-		if err = h.Service.ReceiveItem(item); err != nil {
+		if inner := receiver.ReceiveItem(item); inner != nil {
 			resp.Success = false
-			resp.Message = err.Error()
+			resp.Message = inner.Error()
 		}
 		util.LogErr(stream.Send(&resp))
 	}
diff --git a/src/metaserver/internal/controller/grpc/middleware.go b/src/metaserver/internal/controller/grpc/middleware.go
index 723c45d..cc75bc4 100644
--- a/src/metaserver/internal/controller/grpc/middleware.go
+++ b/src/metaserver/internal/controller/grpc/middleware.go
@@ -6,6 +6,7 @@ import (
 	"context"
 	"metaserver/internal/usecase/logic"
 	"metaserver/internal/usecase/pool"
+	"strings"
 
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
@@ -63,14 +64,16 @@ func CheckWritableUnary(ctx context.Context, req interface{}, info *grpc.UnarySe
 		if pool.RaftWrapper.Enabled && !pool.RaftWrapper.IsLeader() {
 			return nil, status.Error(codes.Unavailable, "server is not writable")
 		}
-		if info.FullMethod == "/proto.HashSlot/StreamingReceive" {
-			goto RETURNS
+		// migrations change the status by themselves
+		if strings.HasPrefix(info.FullMethod, "/proto.HashSlot/") {
+			return handler(ctx, req)
 		}
-		if !pool.HashSlot.IsNormal() {
+		leave, ok := pool.HashSlot.BeginWrite()
+		if !ok {
 			return nil, status.Error(codes.Unavailable, "server in migration")
 		}
+		defer leave()
 	}
-RETURNS:
 	return handler(ctx, req)
 }
 
@@ -113,6 +116,9 @@ func CheckKeySlot(ctx context.Context, req interface{}, _ *grpc.UnaryServerInfo,
 	if r.Id == "" {
 		return handler(ctx, req)
 	}
+	if pool.HashSlot.IsHandingOver(r.Id) {
+		return nil, status.Error(codes.Unavailable, "server in migration")
+	}
 	ok, other := logic.NewHashSlot().IsKeyOnThisServer(r.Id)
 	if ok {
 		return handler(ctx, req)
diff --git a/src/metaserver/internal/controller/http/middleware.go b/src/metaserver/internal/controller/http/middleware.go
index 79625d9..36d77fa 100644
--- a/src/metaserver/internal/controller/http/middleware.go
+++ b/src/metaserver/internal/controller/http/middleware.go
@@ -26,10 +26,14 @@ func CheckLeaderInRaftMode(c *gin.Context) {
 }
 
 func CheckInNormal(c *gin.Context) {
-	if isWriteMethod(c.Request.Method) && !pool.HashSlot.IsNormal() {
-		response.Exec(c).Fail(http.StatusConflict, "server in migration")
-		c.Abort()
-		return
+	if isWriteMethod(c.Request.Method) {
+		leave, ok := pool.HashSlot.BeginWrite()
+		if !ok {
+			response.Exec(c).Fail(http.StatusConflict, "server in migration")
+			c.Abort()
+			return
+		}
+		defer leave()
 	}
 	c.Next()
 }
diff --git a/src/metaserver/internal/usecase/db/hashslot_db.go b/src/metaserver/internal/usecase/db/hashslot_db.go
index cb4eb7e..8823af1 100644
--- a/src/metaserver/internal/usecase/db/hashslot_db.go
+++ b/src/metaserver/internal/usecase/db/hashslot_db.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"time"
 
 	clientv3 "go.etcd.io/etcd/client/v3"
@@ -16,6 +17,7 @@ import (
 var (
 	hsLog         = logs.New("hash-slot-db")
 	MaxExpireUnix = int64(5 * time.Minute.Seconds())
+	ErrChanged    = errors.New("slot-info has been changed")
 )
 
 const (
@@ -45,6 +47,10 @@ type HashSlotDB struct {
 	status         *atomic.Int32
 	provider       *atomic.Pointer[hashslot.IEdgeProvider]
 	updatedAt      int64
+	revision       int64      // revision of provider
+	mu             sync.Mutex // protects fields of provider and of migration
+	writing        sync.RWMutex
+	handingOver    hashslot.EdgeList
 	migratingSlots []string
 	migratingHost  string
 	KeyPrefix      string
@@ -65,30 +71,71 @@ func (h *HashSlotDB) IsNormal() bool {
 	return h.status.Load() == StatusNormal
 }
 
+// BeginWrite returns false if data can't be written because of a migration.
+// Otherwise a migration will not start before leave is called.
+func (h *HashSlotDB) BeginWrite() (leave func(), ok bool) {
+	h.writing.RLock()
+	if !h.IsNormal() {
+		h.writing.RUnlock()
+		return func() {}, false
+	}
+	return h.writing.RUnlock, true
+}
+
+func (h *HashSlotDB) IsClosed() bool {
+	return h.status.Load() == StatusClosed
+}
+
 func (h *HashSlotDB) GetMigrateTo() (bool, string, []string) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	return h.status.Load() == StatusMigrateTo, h.migratingHost, h.migratingSlots
 }
 
 func (h *HashSlotDB) GetMigrateFrom() (bool, string, []string) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	return h.status.Load() == StatusMigrateFrom, h.migratingHost, h.migratingSlots
 }
 
+// HandOver must be called before the target may take slots over: keys of them are no longer served until migration is finished
+func (h *HashSlotDB) HandOver(edges hashslot.EdgeList) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.handingOver = edges
+}
+
+// IsHandingOver reports whether nobody knows yet which server the key belongs to
+func (h *HashSlotDB) IsHandingOver(key string) bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	return len(h.handingOver) > 0 && hashslot.IsSlotInEdges(hashslot.CalcBytesSlot([]byte(key)), h.handingOver)
+}
+
+// Expire slots will be reloaded on next use
+func (h *HashSlotDB) Expire() {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.updatedAt = 0
+}
+
 func (h *HashSlotDB) IsExpired() bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	return time.Now().Unix()-h.updatedAt > MaxExpireUnix
 }
 
 // GetEdgeProvider identify is http-location of server
 func (h *HashSlotDB) GetEdgeProvider(reload bool) (hashslot.IEdgeProvider, error) {
-	item := h.provider.Load()
 	if h.IsExpired() || reload {
-		if err := h.reloadProvider(item); err != nil {
+		if err := h.reloadProvider(); err != nil {
 			return nil, err
 		}
 	}
 	return *h.provider.Load(), nil
 }
 
-func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
+func (h *HashSlotDB) reloadProvider() error {
 	slotsMap := make(map[string][]string)
 	// get slots data from etcd (only master saves into to etcd)
 	res, err := h.kv.Get(context.Background(), h.KeyPrefix, clientv3.WithPrefix())
@@ -107,7 +154,11 @@ func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 	if err != nil {
 		return fmt.Errorf("reloadProvider: %w", err)
 	}
-	if h.provider.CompareAndSwap(old, &data) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if res.Header.Revision >= h.revision {
+		h.revision = res.Header.Revision
+		h.provider.Store(&data)
 		h.updatedAt = time.Now().Unix()
 		hsLog.Infof("update hash-slots success at %d", h.updatedAt)
 	}
@@ -115,6 +166,8 @@ func (h *HashSlotDB) reloadProvider(old *hashslot.IEdgeProvider) error {
 }
 
 func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateFrom) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -124,7 +177,12 @@ func (h *HashSlotDB) ReadyMigrateFrom(loc string, slots []string) error {
 	return errors.New("status is not in normal")
 }
 
+// ReadyMigrateTo waits until all writes that have begun before are done
 func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
+	h.writing.Lock()
+	defer h.writing.Unlock()
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	if h.status.CompareAndSwap(StatusNormal, StatusMigrateTo) {
 		h.migratingHost = loc
 		h.migratingSlots = slots
@@ -135,7 +193,10 @@ func (h *HashSlotDB) ReadyMigrateTo(loc string, slots []string) error {
 }
 
 func (h *HashSlotDB) FinishMigrateTo() error {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateTo, StatusNormal) {
+		h.handingOver = nil
 		h.migratingHost = ""
 		h.migratingSlots = nil
 		hsLog.Debugf("switch migrate-to to normal")
@@ -145,6 +206,8 @@ func (h *HashSlotDB) FinishMigrateTo() error {
 }
 
 func (h *HashSlotDB) FinishMigrateFrom() error {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	if h.status.CompareAndSwap(StatusMigrateFrom, StatusNormal) {
 		h.migratingHost = ""
 		h.migratingSlots = nil
@@ -156,34 +219,57 @@ func (h *HashSlotDB) FinishMigrateFrom() error {
 
 // Get The 'id' is the store id which defined in configuration
 func (h *HashSlotDB) Get(id string) (*hashslot.SlotInfo, bool, error) {
+	info, revision, err := h.Load(id)
+	return info, revision > 0, err
+}
+
+// Load same as Get, but returns the revision of slot-info too which is 0 if not exist
+func (h *HashSlotDB) Load(id string) (*hashslot.SlotInfo, int64, error) {
 	key := fmt.Sprint(h.KeyPrefix, id)
 	resp, err := h.kv.Get(context.Background(), key)
 	if err != nil {
-		return nil, false, err
+		return nil, 0, err
 	}
 	if len(resp.Kvs) == 0 {
-		return nil, false, nil
+		return nil, 0, nil
 	}
 	var info hashslot.SlotInfo
 	if err = util.DecodeMsgp(&info, resp.Kvs[0].Value); err != nil {
-		return nil, false, err
+		return nil, 0, err
 	}
-	return &info, true, nil
+	return &info, resp.Kvs[0].ModRevision, nil
 }
 
-func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo) (err error) {
+func (h *HashSlotDB) Save(id string, info *hashslot.SlotInfo, revision int64) (err error) {
 	if h.status.Load() != StatusNormal {
 		return errors.New("status not in normal")
 	}
-	key := fmt.Sprint(h.KeyPrefix, id)
-	bt, err := util.EncodeMsgp(info)
+	info.GroupID = id
+	return h.SaveAll([]*hashslot.SlotInfo{info}, []int64{revision})
+}
+
+// SaveAll saves all of infos or none of them. None are saved if any of them was changed since its revision.
+// It is unknown whether infos are saved if error is not ErrChanged.
+func (h *HashSlotDB) SaveAll(infos []*hashslot.SlotInfo, revisions []int64) error {
+	var cmps []clientv3.Cmp
+	var puts []clientv3.Op
+	for i, info := range infos {
+		bt, err := util.EncodeMsgp(info)
+		if err != nil {
+			return err
+		}
+		key := fmt.Sprint(h.KeyPrefix, info.GroupID)
+		cmps = append(cmps, clientv3.Compare(clientv3.ModRevision(key), "=", revisions[i]))
+		puts = append(puts, clientv3.OpPut(key, string(bt)))
+	}
+	resp, err := h.kv.Txn(context.Background()).If(cmps...).Then(puts...).Commit()
 	if err != nil {
 		return err
 	}
-	info.GroupID = id
-	// saving
-	_, err = h.kv.Put(context.Background(), key, string(bt))
-	return err
+	if !resp.Succeeded {
+		return ErrChanged
+	}
+	return nil
 }
 
 func (h *HashSlotDB) Remove(id string) error {
diff --git a/src/metaserver/internal/usecase/interfaces.go b/src/metaserver/internal/usecase/interfaces.go
index 9e5aa76..7fedeb4 100644
--- a/src/metaserver/internal/usecase/interfaces.go
+++ b/src/metaserver/internal/usecase/interfaces.go
@@ -111,12 +111,17 @@ type (
 		OnLeaderChanged(bool)
 	}
 
+	// SlotReceiver receives data of slots, and takes over these slots in the end if success
+	SlotReceiver interface {
+		ReceiveItem(*pb.MigrationItem) error
+		Finish(success bool) error
+	}
+
 	IHashSlotService interface {
 		AutoMigrate(toLoc *pb.LocationInfo, slots []string) error
-		PrepareMigrationFrom(loc *pb.LocationInfo, slots []string) error
+		PrepareMigrationFrom(storeID string, loc *pb.LocationInfo, slots []string) error
 		PrepareMigrationTo(loc *pb.LocationInfo, slots []string) error
-		ReceiveItem(*pb.MigrationItem) error
-		FinishReceiveItem(bool) error
+		StartReceive() (SlotReceiver, error)
 		GetCurrentSlots(bool) (map[string][]string, error)
 	}
 
diff --git a/src/metaserver/internal/usecase/logic/hashslot_logic.go b/src/metaserver/internal/usecase/logic/hashslot_logic.go
index af93d2b..dff4db7 100644
--- a/src/metaserver/internal/usecase/logic/hashslot_logic.go
+++ b/src/metaserver/internal/usecase/logic/hashslot_logic.go
@@ -35,21 +35,26 @@ func (HashSlot) GetSlotsProvider() (hashslot.IEdgeProvider, error) {
 	return pool.HashSlot.GetEdgeProvider(false)
 }
 
-func (h HashSlot) SaveToEtcd(id string, info *hashslot.SlotInfo) error {
+// SaveToEtcd saves info as slots of this server, unless it was changed since the revision
+func (h HashSlot) SaveToEtcd(id string, info *hashslot.SlotInfo, revision int64) error {
 	info.GroupID = id
 	info.ServerID = pool.Config.Registry.SID()
+	if err := pool.HashSlot.Save(id, info, revision); err != nil {
+		return err
+	}
+	h.Persist(info.Slots)
+	_, err := pool.HashSlot.GetEdgeProvider(true)
+	return err
+}
+
+// Persist saves slots to the configuration async
+func (h HashSlot) Persist(slots []string) {
+	pool.Config.HashSlot.Slots = slots
 	go func() {
-		pool.Config.HashSlot.Slots = info.Slots
 		if err := pool.Config.Persist(); err != nil {
 			logs.Std().Errorf("persist config err: %s", err)
-			return
 		}
 	}()
-	if err := pool.HashSlot.Save(id, info); err != nil {
-		return err
-	}
-	_, err := pool.HashSlot.GetEdgeProvider(true)
-	return err
 }
 
 func (HashSlot) RemoveFromEtcd(id string) error {
diff --git a/src/metaserver/internal/usecase/logic/raft_cluster_logic.go b/src/metaserver/internal/usecase/logic/raft_cluster_logic.go
index add62b8..1bea6d6 100644
--- a/src/metaserver/internal/usecase/logic/raft_cluster_logic.go
+++ b/src/metaserver/internal/usecase/logic/raft_cluster_logic.go
@@ -30,7 +30,11 @@ func (rc RaftCluster) UpdateConfiguration(cfg *config.ClusterConfig) error {
 			return err
 		}
 		pool.Config.HashSlot.StoreID = cfg.GroupID
-		if err = hsLogic.SaveToEtcd(pool.Config.HashSlot.StoreID, info); err != nil {
+		_, revision, err := pool.HashSlot.Load(cfg.GroupID)
+		if err != nil {
+			return err
+		}
+		if err = hsLogic.SaveToEtcd(pool.Config.HashSlot.StoreID, info, revision); err != nil {
 			return err
 		}
 	} else {
diff --git a/src/metaserver/internal/usecase/service/hashslot_service.go b/src/metaserver/internal/usecase/service/hashslot_service.go
index 8d26547..71d9052 100644
--- a/src/metaserver/internal/usecase/service/hashslot_service.go
+++ b/src/metaserver/internal/usecase/service/hashslot_service.go
@@ -1,7 +1,6 @@
 package service
 
 import (
-	"common/graceful"
 	"common/hashslot"
 	"common/logs"
 	"common/proto"
@@ -11,6 +10,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"io"
 	"metaserver/config"
 	"metaserver/internal/entity"
 	"metaserver/internal/usecase"
@@ -18,6 +18,8 @@ import (
 	"metaserver/internal/usecase/logic"
 	"metaserver/internal/usecase/pool"
 	"net"
+	"sync"
+	"sync/atomic"
 	"time"
 
 	"google.golang.org/grpc"
@@ -27,12 +29,26 @@ var (
 	hsLog = logs.New("hash-slot-migration")
 )
 
+const retryInterval = time.Second
+
 type HashSlotService struct {
 	Store         *db.HashSlotDB
 	Service       usecase.IMetadataService
 	BucketService usecase.BucketService
 	Cfg           *config.HashSlotConfig
-	startReceive  func()
+	mu            sync.Mutex
+	from          *migrateFrom // not nil if server is in migrate-from
+	term          atomic.Int64
+}
+
+// migrateFrom where slots come from
+type migrateFrom struct {
+	*HashSlotService
+	started  bool
+	storeID  string
+	revision int64 // of slot-info of the source
+	edges    hashslot.EdgeList
+	timer    *time.Timer // aborts migration if source has gone
 }
 
 func NewHashSlotService(st *db.HashSlotDB, serv usecase.IMetadataService, bucketService usecase.BucketService, cfg *config.HashSlotConfig) *HashSlotService {
@@ -41,31 +57,43 @@ func NewHashSlotService(st *db.HashSlotDB, serv usecase.IMetadataService, bucket
 		Service:       serv,
 		BucketService: bucketService,
 		Cfg:           cfg,
-		startReceive:  func() {},
 	}
 }
 
 func (h *HashSlotService) OnLeaderChanged(isLeader bool) {
-	if isLeader {
-		var (
-			info  *hashslot.SlotInfo
-			exist bool
-			err   error
-		)
-		// if not exist, read from configuration
-		if info, exist, err = h.Store.Get(h.Cfg.StoreID); !exist {
-			if err != nil {
-				logs.Std().Errorf("get slot-info when leader changed: %s", err)
+	term := h.term.Add(1)
+	if !isLeader {
+		h.Store.Expire()
+		return
+	}
+	err := h.takeSlots()
+	if err == nil {
+		return
+	}
+	logs.Std().Errorf("take slots when leader changed: %s", err)
+	go func() {
+		for err != nil {
+			time.Sleep(retryInterval)
+			if h.term.Load() != term || h.Store.IsClosed() {
 				return
 			}
-			info = &hashslot.SlotInfo{Slots: h.Cfg.Slots, GroupID: h.Cfg.StoreID}
-			logs.Std().Infof("no exist slots, init from config: id=%s, slots=%s", info.GroupID, info.Slots)
-		}
-		if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
-			logs.Std().Error(err)
-			return
+			err = h.takeSlots()
 		}
+	}()
+}
+
+// takeSlots saves this server as the owner of slots
+func (h *HashSlotService) takeSlots() error {
+	info, revision, err := h.Store.Load(h.Cfg.StoreID)
+	if err != nil {
+		return err
+	}
+	// if not exist, read from configuration
+	if info == nil {
+		info = &hashslot.SlotInfo{Slots: h.Cfg.Slots, GroupID: h.Cfg.StoreID}
+		logs.Std().Infof("no exist slots, init from config: id=%s, slots=%s", info.GroupID, info.Slots)
 	}
+	return logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info, revision)
 }
 
 func (h *HashSlotService) GetCurrentSlots(reload bool) (map[string][]string, error) {
@@ -82,7 +110,7 @@ func (h *HashSlotService) GetCurrentSlots(reload bool) (map[string][]string, err
 
 func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []string) error {
 	// validate slots
-	provider, err := h.Store.GetEdgeProvider(false)
+	provider, err := h.Store.GetEdgeProvider(true)
 	if err != nil {
 		return err
 	}
@@ -90,40 +118,49 @@ func (h *HashSlotService) PrepareMigrationTo(loc *pb.LocationInfo, slots []strin
 	if err != nil {
 		return err
 	}
+	if len(edges) == 0 {
+		return errors.New("no slots to migrate")
+	}
 	// ensure all slots is in this server
 	for _, edge := range edges {
 		if !hashslot.IsValidEdge(edge, provider) {
 			return fmt.Errorf("slot %s is not in this server", edge)
 		}
 	}
-	// send prepare rpc to target
+	// change status to migrate-to, there are no writes since then
+	if err = h.Store.ReadyMigrateTo(loc.GetHost(), slots); err != nil {
+		return err
+	}
+	if err = h.prepareTarget(loc, slots); err != nil {
+		util.LogErr(h.Store.FinishMigrateTo())
+	}
+	return err
+}
+
+// prepareTarget send prepare rpc to target
+func (h *HashSlotService) prepareTarget(loc *pb.LocationInfo, slots []string) error {
 	cc, err := grpc.Dial(net.JoinHostPort(loc.GetHost(), loc.GetPort()), grpc.WithInsecure())
 	if err != nil {
 		return err
 	}
-	client := pb.NewHashSlotClient(cc)
-	resp, err := client.PrepareMigration(context.Background(), &pb.PrepareReq{
+	defer cc.Close()
+	ctx, cancel := context.WithTimeout(context.Background(), h.Cfg.PrepareTimeout)
+	defer cancel()
+	_, err = proto.ResolveResponse(pb.NewHashSlotClient(cc).PrepareMigration(ctx, &pb.PrepareReq{
 		Id: h.Cfg.StoreID,
 		Location: &pb.LocationInfo{
 			Host: util.DetectServerIP(),
 			Port: pool.Config.Port,
 		},
 		Slots: slots,
-	})
-	if err != nil {
-		return err
-	}
-	if !resp.GetSuccess() {
-		return errors.New(resp.GetMessage())
-	}
-	// change status to migrate-to
-	return h.Store.ReadyMigrateTo(loc.GetHost(), slots)
+	}))
+	return err
 }
 
 // PrepareMigrationFrom Change into migrate-from. Status will change back if timeout
-func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []string) error {
+func (h *HashSlotService) PrepareMigrationFrom(storeID string, loc *pb.LocationInfo, slots []string) error {
 	// validate slots
-	provider, err := h.Store.GetEdgeProvider(false)
+	provider, err := h.Store.GetEdgeProvider(true)
 	if err != nil {
 		return err
 	}
@@ -131,67 +168,176 @@ func (h *HashSlotService) PrepareMigrationFrom(loc *pb.LocationInfo, slots []str
 	if err != nil {
 		return err
 	}
+	if len(edges) == 0 {
+		return errors.New("no slots to migrate")
+	}
 	// ensure all slots is not in this server
 	for _, edge := range edges {
-		if hashslot.IsValidEdge(edge, provider) {
-			return fmt.Errorf("slot %s is currently in this server", edge)
+		res, _ := hashslot.FindRangeCurrentData(edge.Start, edge.End, provider)
+		for _, cur := range res {
+			if cur.Value == edge.Value {
+				return fmt.Errorf("slot %s is currently in this server", edge)
+			}
 		}
 	}
 	// change status to migrate-from
 	if err = h.Store.ReadyMigrateFrom(loc.GetHost(), slots); err != nil {
 		return err
 	}
-	cancelCh := make(chan struct{})
-	h.startReceive = func() {
-		close(cancelCh)
-		h.startReceive = func() {}
+	_, revision, err := h.Store.Load(storeID)
+	if err == nil && revision == 0 {
+		err = fmt.Errorf("no slot-info of %s", storeID)
 	}
-	go func() {
-		select {
-		case <-cancelCh:
-			logs.Std().Debug("migration-from timeout-ctx canceled")
-		case <-time.NewTicker(h.Cfg.PrepareTimeout).C:
-			_ = h.Store.FinishMigrateFrom()
-			logs.Std().Errorf("timeout migrating from %s", loc.GetHost())
+	if err == nil {
+		err = h.removeKeys(edges)
+	}
+	if err != nil {
+		util.LogErr(h.Store.FinishMigrateFrom())
+		return err
+	}
+	from := &migrateFrom{HashSlotService: h, storeID: storeID, revision: revision, edges: edges}
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.from = from
+	from.timer = time.AfterFunc(h.Cfg.PrepareTimeout, func() {
+		h.mu.Lock()
+		defer h.mu.Unlock()
+		if h.from != from {
+			return
 		}
-	}()
+		h.from = nil
+		util.LogErr(h.Store.FinishMigrateFrom())
+		logs.Std().Errorf("timeout migrating from %s", loc.GetHost())
+	})
 	return nil
 }
 
-func (h *HashSlotService) FinishReceiveItem(success bool) error {
-	h.startReceive()
-	var (
-		newSlots []string
-		fromHost string
-		ok       bool
-	)
-	if ok, fromHost, newSlots = h.Store.GetMigrateFrom(); !ok {
+// removeKeys removes all data of slots which are not in this server
+func (h *HashSlotService) removeKeys(edges hashslot.EdgeList) error {
+	for _, key := range h.metadataKeys(edges) {
+		if err := h.Service.RemoveMetadata(key); err != nil {
+			return fmt.Errorf("remove metadata %s: %w", key, err)
+		}
+	}
+	keys, err := h.bucketKeys(edges)
+	if err != nil {
+		return err
+	}
+	for _, key := range keys {
+		if err := h.BucketService.Remove(key); err != nil {
+			return fmt.Errorf("remove bucket %s: %w", key, err)
+		}
+	}
+	return nil
+}
+
+// StartReceive returns the receiver of the migration that is prepared
+func (h *HashSlotService) StartReceive() (usecase.SlotReceiver, error) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.from == nil || h.from.started {
+		return nil, fmt.Errorf("server is not in migrate-from")
+	}
+	h.from.started = true
+	return h.from, nil
+}
+
+// Finish takes over slots if success
+func (from *migrateFrom) Finish(success bool) error {
+	h := from.HashSlotService
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.from != from {
 		return fmt.Errorf("get received slots fails: server is not in migrate-from")
 	}
-	if err := h.Store.FinishMigrateFrom(); err != nil {
-		util.LogErr(err)
+	h.from = nil
+	from.timer.Stop()
+	var slots []string
+	var err error
+	if success {
+		slots, err = h.takeOver(from)
+	}
+	if inner := h.Store.FinishMigrateFrom(); inner != nil {
+		util.LogErr(inner)
 	}
-	if !success {
-		return nil
+	if slots != nil {
+		logic.NewHashSlot().Persist(slots)
+		h.Store.Expire()
 	}
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
+	return err
+}
+
+// takeOver moves slots from the source to this server, returns slots of this server if success
+func (h *HashSlotService) takeOver(from *migrateFrom) ([]string, error) {
+	unknown := false
+	for {
+		slots, err := h.tryTakeOver(from, &unknown)
+		if err == nil || !unknown || h.Store.IsClosed() {
+			return slots, err
+		}
+		// it must be known whether slots have been moved
+		hsLog.Errorf("take over slots: %s", err)
+		time.Sleep(retryInterval)
+	}
+}
+
+func (h *HashSlotService) tryTakeOver(from *migrateFrom, unknown *bool) ([]string, error) {
+	info, revision, err := h.Store.Load(h.Cfg.StoreID)
+	if err != nil {
+		return nil, fmt.Errorf("update slot fails after finish migration: %w", err)
+	}
+	if info == nil {
+		*unknown = false
+		return nil, fmt.Errorf("no slot-info of %s", h.Cfg.StoreID)
+	}
+	curEdges, err := hashslot.WrapSlotsToEdges(info.Slots, "")
 	if err != nil {
-		return fmt.Errorf("update slot fails after finish migration: %w", err)
+		return nil, err
+	}
+	if *unknown && hashslot.IsSlotInEdges(from.edges[0].Start, curEdges) {
+		return info.Slots, nil
+	}
+	source, _, err := h.Store.Load(from.storeID)
+	if err != nil {
+		return nil, fmt.Errorf("update slot fails after finish migration: %w", err)
+	}
+	if source == nil {
+		*unknown = false
+		return nil, fmt.Errorf("no slot-info of %s", from.storeID)
+	}
+	srcEdges, err := hashslot.WrapSlotsToEdges(source.Slots, "")
+	if err != nil {
+		return nil, err
+	}
+	source.Slots = hashslot.RemoveEdges(srcEdges, from.edges).Strings()
+	// combine to new slots
+	newEdges := make(hashslot.EdgeList, 0, len(from.edges))
+	for _, edge := range from.edges {
+		newEdges = append(newEdges, &hashslot.Edge{Start: edge.Start, End: edge.End})
 	}
-	// combine to new slots, ignore error because both have been validated
-	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
-	newEdges, _ := hashslot.WrapSlotsToEdges(newSlots, "")
 	info.Slots = hashslot.CombineEdges(curEdges, newEdges).Strings()
+	info.ServerID = pool.Config.Registry.SID()
 	// save new slot-info
-	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
-		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
+	err = h.Store.SaveAll([]*hashslot.SlotInfo{source, info}, []int64{from.revision, revision})
+	*unknown = err != nil && !errors.Is(err, db.ErrChanged)
+	if err != nil {
+		return nil, fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
 	}
-	logs.Std().Debugf("finish migration from %s success", fromHost)
-	return nil
+	return info.Slots, nil
 }
 
-func (h *HashSlotService) ReceiveItem(item *pb.MigrationItem) error {
-	h.startReceive()
+func (from *migrateFrom) ReceiveItem(item *pb.MigrationItem) error {
+	h := from.HashSlotService
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.from != from {
+		return fmt.Errorf("server is not in migrate-from")
+	}
+	if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot([]byte(item.Name)), from.edges) {
+		return fmt.Errorf("slot of %s is not in migration", item.Name)
+	}
+	from.timer.Stop()
+	defer from.timer.Reset(h.Cfg.PrepareTimeout)
 	var err error
 	switch entity.Dest(item.Dest) {
 	case entity.DestVersion:
@@ -228,6 +374,30 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 		return fmt.Errorf("no ready to migrate to %s", toLoc.GetHost())
 	}
 	defer h.Store.FinishMigrateTo() // avoid status stick if PANIC
+	edges, err := hashslot.WrapSlotsToEdges(slots, "")
+	if err != nil {
+		return err
+	}
+	sendErr := h.sendAll(toLoc, edges)
+	// slots have been moved or will never be, no matter what the target said
+	moved, slots := h.settle(edges)
+	if !moved {
+		if sendErr == nil {
+			sendErr = errors.New("slots are not moved")
+		}
+		return sendErr
+	}
+	logic.NewHashSlot().Persist(slots)
+	// data belongs to the target since now
+	if err = h.removeKeys(edges); err != nil {
+		hsLog.Errorf("remove migrated data: %s", err)
+	}
+	hsLog.Infof("finish migration to %s success", toLoc.Host)
+	return nil
+}
+
+// sendAll sends all data of slots to target, returns nil if target has taken over slots
+func (h *HashSlotService) sendAll(toLoc *pb.LocationInfo, edges hashslot.EdgeList) error {
 	// connect to target
 	cc, err := grpc.Dial(net.JoinHostPort(toLoc.Host, toLoc.Port), grpc.WithInsecure())
 	if err != nil {
@@ -236,45 +406,90 @@ func (h *HashSlotService) AutoMigrate(toLoc *pb.LocationInfo, slots []string) er
 	defer cc.Close()
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
+	// give up if target has gone
+	timer := time.AfterFunc(h.Cfg.PrepareTimeout, cancel)
+	defer timer.Stop()
 	stream, err := pb.NewHashSlotClient(cc).StreamingReceive(ctx)
 	if err != nil {
 		return err
 	}
-	delEdges, _ := hashslot.WrapSlotsToEdges(slots, "")
-	var errs []error
-	errs = append(errs, h.migrateMetadata(stream, delEdges)...)
-	errs = append(errs, h.migrateBuckets(stream, delEdges)...)
-	if len(errs) > 0 {
-		return errors.Join(errs...)
-	}
-	// all migrate success
-	if err = h.Store.FinishMigrateTo(); err != nil {
-		hsLog.Debugf("switch status to normal err: %s", err)
+	send := func(item *pb.MigrationItem) error {
+		timer.Reset(h.Cfg.PrepareTimeout)
+		if err := stream.Send(item); err != nil {
+			return err
+		}
+		_, err := proto.ResolveResponse(stream.Recv())
+		return err
 	}
-	// remove slots from current slot-info
-	info, _, err := h.Store.Get(h.Cfg.StoreID)
-	if err != nil {
-		return fmt.Errorf("update slot fails after finish migration: %w", err)
+	if err = h.migrateMetadata(send, edges); err != nil {
+		return err
 	}
-	curEdges, _ := hashslot.WrapSlotsToEdges(info.Slots, "")
-	info.Slots = hashslot.RemoveEdges(curEdges, delEdges).Strings()
-	// save new slot-info
-	if err = logic.NewHashSlot().SaveToEtcd(h.Cfg.StoreID, info); err != nil {
-		return fmt.Errorf("save new slot-info fails after finsih migrateion: %w", err)
+	if err = h.migrateBuckets(send, edges); err != nil {
+		return err
 	}
-	// close stream as success
+	// all migrate success, close stream
+	h.Store.HandOver(edges)
+	timer.Reset(h.Cfg.PrepareTimeout)
 	if err = stream.CloseSend(); err != nil {
-		hsLog.Error(err)
+		return err
+	}
+	if _, err = stream.Recv(); err != io.EOF {
+		return err
 	}
-	hsLog.Infof("finish migration to %s success", toLoc.Host)
 	return nil
 }
 
-func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var sucNum int
-	metaKeys := h.Service.FilterKeys(func(s string) bool {
+// settle finds out whether slots have been moved to the target, and makes sure that they will not be if not.
+// Returns slots that are left.
+func (h *HashSlotService) settle(edges hashslot.EdgeList) (moved bool, slots []string) {
+	for {
+		moved, slots, err := h.trySettle(edges)
+		if err == nil || h.Store.IsClosed() {
+			return moved, slots
+		}
+		hsLog.Errorf("settle slots of migration: %s", err)
+		time.Sleep(retryInterval)
+	}
+}
+
+func (h *HashSlotService) trySettle(edges hashslot.EdgeList) (bool, []string, error) {
+	info, revision, err := h.Store.Load(h.Cfg.StoreID)
+	if err != nil {
+		return false, nil, err
+	}
+	if info == nil {
+		return false, nil, nil
+	}
+	curEdges, err := hashslot.WrapSlotsToEdges(info.Slots, "")
+	if err != nil {
+		return false, nil, err
+	}
+	if hashslot.IsSlotInEdges(edges[0].Start, curEdges) {
+		// a new revision keeps target from taking over slots
+		return false, nil, h.Store.SaveAll([]*hashslot.SlotInfo{info}, []int64{revision})
+	}
+	_, err = h.Store.GetEdgeProvider(true)
+	return true, info.Slots, err
+}
+
+func (h *HashSlotService) metadataKeys(edges hashslot.EdgeList) []string {
+	return h.Service.FilterKeys(func(s string) bool {
 		return hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(util.StrToBytes(s)), edges)
 	})
+}
+
+func (h *HashSlotService) bucketKeys(edges hashslot.EdgeList) (keys []string, err error) {
+	err = h.BucketService.Foreach(func(k []byte, _ []byte) error {
+		if hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
+			keys = append(keys, string(k)) // keys are only valid during the transaction
+		}
+		return nil
+	})
+	return
+}
+
+func (h *HashSlotService) migrateMetadata(send func(*pb.MigrationItem) error, edges hashslot.EdgeList) error {
+	metaKeys := h.metadataKeys(edges)
 	total := len(metaKeys)
 	// send all metadata and versions
 	for len(metaKeys) > 0 {
@@ -282,113 +497,56 @@ func (h *HashSlotService) migrateMetadata(stream pb.HashSlot_StreamingReceiveCli
 		metaKeys = metaKeys[1:] // for earlier GC
 		data, seq, err := h.Service.GetMetadataBytes(key)
 		if err != nil {
-			errs = append(errs, err)
-			continue
+			return err
 		}
 		// send data
-		if err = stream.Send(&pb.MigrationItem{
+		if err = send(&pb.MigrationItem{
 			Name:     key,
 			Data:     data,
 			Dest:     int32(entity.DestMetadata),
 			Sequence: seq,
 		}); err != nil {
-			hsLog.Debugf("send metadata %s err: %s", key, err)
-			errs = append(errs, err)
-			continue
-		}
-		// recv response
-		_, err = proto.ResolveResponse(stream.Recv())
-		if err != nil {
-			hsLog.Debugf("recv send-metadata %s response err: %s", key, err)
-			errs = append(errs, err)
-			continue
+			return fmt.Errorf("send metadata %s: %w", key, err)
 		}
 		// start send versions
-		allVersionSuccess := true
 		h.Service.ForeachVersionBytes(key, func(b []byte) bool {
-			// send version
-			if err = stream.Send(&pb.MigrationItem{
+			err = send(&pb.MigrationItem{
 				Name: key,
 				Data: b,
 				Dest: int32(entity.DestVersion),
-			}); err != nil {
-				errs = append(errs, err)
-				allVersionSuccess = false
-				hsLog.Debugf("send-metadata-version %s err: %s", key, err)
-			}
-			// recv response
-			_, err = proto.ResolveResponse(stream.Recv())
-			if err != nil {
-				errs = append(errs, err)
-				allVersionSuccess = false
-				hsLog.Debugf("send-metadata-version %s recv err: %s", key, err)
-			}
-			return true
+			})
+			return err == nil
 		})
-		if !allVersionSuccess {
-			continue
+		if err != nil {
+			return fmt.Errorf("send metadata-version %s: %w", key, err)
 		}
-		sucNum++
-		// delete if all success
-		go func() {
-			defer graceful.Recover()
-			if inner := h.Service.RemoveMetadata(key); inner != nil {
-				hsLog.Errorf("delete-metadata %s fail: %s", key, inner)
-			}
-		}()
 	}
-	hsLog.Infof("migration totally %d metadata and successed %d verions", total, sucNum)
-	return
+	hsLog.Infof("migration totally %d metadata", total)
+	return nil
 }
 
-func (h *HashSlotService) migrateBuckets(stream pb.HashSlot_StreamingReceiveClient, edges hashslot.EdgeList) (errs []error) {
-	var successBuckets int
-	var migKeys [][]byte
-	err := h.BucketService.Foreach(func(k []byte, _ []byte) error {
-		if !hashslot.IsSlotInEdges(hashslot.CalcBytesSlot(k), edges) {
-			return nil
-		}
-		migKeys = append(migKeys, append([]byte{}, k...)) // keys are only valid during the transaction
-		return nil
-	})
+func (h *HashSlotService) migrateBuckets(send func(*pb.MigrationItem) error, edges hashslot.EdgeList) error {
+	migKeys, err := h.bucketKeys(edges)
+	if err != nil {
+		return err
+	}
 	total := len(migKeys)
 	for len(migKeys) > 0 {
-		k := migKeys[0]
+		key := migKeys[0]
 		migKeys = migKeys[1:] // for earlier GC
-		keyStr := util.BytesToStr(k)
-		v, err := h.BucketService.GetBytes(keyStr)
+		v, err := h.BucketService.GetBytes(key)
 		if err != nil {
-			errs = append(errs, err)
-			continue
+			return err
 		}
 		// send data
-		if err = stream.Send(&pb.MigrationItem{
-			Name: keyStr,
+		if err = send(&pb.MigrationItem{
+			Name: key,
 			Data: v,
 			Dest: int32(entity.DestBucket),
 		}); err != nil {
-			hsLog.Debugf("send bucket %s err: %s", keyStr, err)
-			errs = append(errs, err)
-			continue
-		}
-		// recv response
-		_, err = proto.ResolveResponse(stream.Recv())
-		if err != nil {
-			hsLog.Debugf("recv send-bucket %s response err: %s", keyStr, err)
-			errs = append(errs, err)
-			continue
+			return fmt.Errorf("send bucket %s: %w", key, err)
 		}
-		successBuckets++
-		go func() {
-			defer graceful.Recover()
-			if err := h.BucketService.Remove(keyStr); err != nil {
-				hsLog.Errorf("delete-bucket %s err: %s", keyStr, err)
-			}
-		}()
 	}
-	if err != nil {
-		errs = append(errs, err)
-	}
-	hsLog.Infof("migration totally %d buckets and successed %d", total, successBuckets)
-	return
+	hsLog.Infof("migration totally %d buckets", total)
+	return nil
 }
-- 
2.43.0


From c10d8b6f59ac6d049f46627beb8b1fad01a84d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:38 +0000
Subject: [PATCH 52/64] fix: record only the locations a repair has changed

---
 src/apiserver/internal/usecase/interfaces.go  |  1 +
 .../internal/usecase/repo/interfaces.go       |  1 +
 .../internal/usecase/repo/version_repo.go     | 10 +++++++++
 .../usecase/service/copy_fix_stream.go        | 15 +++++--------
 .../internal/usecase/service/meta_service.go  |  5 +++++
 .../usecase/service/object_service.go         |  5 ++---
 .../internal/usecase/service/rs_get_stream.go | 14 +++++-------
 .../usecase/service/stream_interface.go       |  3 ++-
 .../internal/usecase/webapi/meta_server.go    | 22 +++++++++++++++++++
 9 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/apiserver/internal/usecase/interfaces.go b/src/apiserver/internal/usecase/interfaces.go
index 2fa15ae..d6a1ff8 100644
--- a/src/apiserver/internal/usecase/interfaces.go
+++ b/src/apiserver/internal/usecase/interfaces.go
@@ -10,6 +10,7 @@ type (
 		SaveMetadata(data *entity.Metadata) (int32, error)
 		AddVersion(name, bucket string, version *entity.Version) (int32, error)
 		UpdateVersion(name, bucket string, data *entity.Version) error
+		UpdateLocate(name, bucket, hash string, index int, locate string) error
 		GetVersion(name, bucket string, verMode int32) (*entity.Version, error)
 		GetMetadata(name, bucket string, verMode int32, withExtra bool) (*entity.Metadata, error)
 		RemoveVersion(name, bucket string, version int32) error
diff --git a/src/apiserver/internal/usecase/repo/interfaces.go b/src/apiserver/internal/usecase/repo/interfaces.go
index 37d3eb3..0646698 100644
--- a/src/apiserver/internal/usecase/repo/interfaces.go
+++ b/src/apiserver/internal/usecase/repo/interfaces.go
@@ -12,6 +12,7 @@ type IMetadataRepo interface {
 type IVersionRepo interface {
 	Find(name, bucket string, i int32) (*entity.Version, error)
 	Update(name, bucket string, ver *entity.Version) error
+	UpdateLocate(name, bucket, hash string, index int, locate string) error
 	Add(name, bucket string, ver *entity.Version) (int32, error)
 	Delete(name, bucket string, ver int32) error
 }
diff --git a/src/apiserver/internal/usecase/repo/version_repo.go b/src/apiserver/internal/usecase/repo/version_repo.go
index c19ac9f..0978c7e 100644
--- a/src/apiserver/internal/usecase/repo/version_repo.go
+++ b/src/apiserver/internal/usecase/repo/version_repo.go
@@ -4,6 +4,7 @@ import (
 	"apiserver/internal/entity"
 	"apiserver/internal/usecase/grpcapi"
 	"apiserver/internal/usecase/logic"
+	"apiserver/internal/usecase/webapi"
 	"fmt"
 )
 
@@ -42,6 +43,15 @@ func (v *VersionRepo) Update(name, bucket string, ver *entity.Version) error {
 	return grpcapi.UpdateVersion(logic.NewDiscovery().GetMetaServerGRPC(masterId), name, ver)
 }
 
+// UpdateLocate updates one locate of all versions of hash which are stored together with name
+func (v *VersionRepo) UpdateLocate(name, bucket, hash string, index int, locate string) error {
+	masterId, err := logic.NewHashSlot().KeySlotLocation(fmt.Sprint(bucket, "/", name))
+	if err != nil {
+		return err
+	}
+	return webapi.PatchLocate(logic.NewDiscovery().GetMetaServerHTTP(masterId), hash, index, locate)
+}
+
 // Add add a version for metadata. returns the num of version
 func (v *VersionRepo) Add(name, bucket string, ver *entity.Version) (int32, error) {
 	name = fmt.Sprint(bucket, "/", name)
diff --git a/src/apiserver/internal/usecase/service/copy_fix_stream.go b/src/apiserver/internal/usecase/service/copy_fix_stream.go
index 601ba6c..0a77e68 100644
--- a/src/apiserver/internal/usecase/service/copy_fix_stream.go
+++ b/src/apiserver/internal/usecase/service/copy_fix_stream.go
@@ -60,21 +60,16 @@ func (c *CopyFixStream) fix() error {
 		}(i, copyName(c.opt.Hash, copyIdx))
 	}
 	wg.Wait()
-	// update locates of the fixed ones only
-	locates := append([]string{}, c.opt.Locates...)
-	var needUpdate bool
+	// update locates of the fixed ones only: the others may have been moved since the version was read
 	for i, copyIdx := range c.lost {
-		if errs[i] == nil {
-			locates[copyIdx] = c.locates[i]
-			needUpdate = true
+		if errs[i] != nil {
+			continue
 		}
-	}
-	if needUpdate {
 		if c.opt.Updater == nil {
 			errs = append(errs, errors.New("locates updater required but nil"))
-		} else {
-			errs = append(errs, c.opt.Updater(locates))
+			break
 		}
+		errs = append(errs, c.opt.Updater(copyIdx, c.locates[i]))
 	}
 	return errors.Join(errs...)
 }
diff --git a/src/apiserver/internal/usecase/service/meta_service.go b/src/apiserver/internal/usecase/service/meta_service.go
index 1f928e4..3bc0e90 100644
--- a/src/apiserver/internal/usecase/service/meta_service.go
+++ b/src/apiserver/internal/usecase/service/meta_service.go
@@ -38,6 +38,11 @@ func (m *MetaService) UpdateVersion(name, bucket string, version *entity.Version
 	return
 }
 
+// UpdateLocate changes one locate of the versions of hash, without touching their other ones
+func (m *MetaService) UpdateLocate(name, bucket, hash string, index int, locate string) error {
+	return m.versionRepo.UpdateLocate(name, bucket, hash, index, locate)
+}
+
 func (m *MetaService) RemoveVersion(name, bucket string, version int32) error {
 	return m.versionRepo.Delete(name, bucket, version)
 }
diff --git a/src/apiserver/internal/usecase/service/object_service.go b/src/apiserver/internal/usecase/service/object_service.go
index a2ee00f..8135705 100644
--- a/src/apiserver/internal/usecase/service/object_service.go
+++ b/src/apiserver/internal/usecase/service/object_service.go
@@ -231,9 +231,8 @@ func streamToDataServer(req *entity.PutReq, meta *entity.Version, provider Strea
 }
 
 func (o *ObjectService) GetObject(meta *entity.Metadata, ver *entity.Version) (io.ReadSeekCloser, error) {
-	up := func(locates []string) error {
-		ver.Locate = locates
-		return o.metaService.UpdateVersion(meta.Name, meta.Bucket, ver)
+	up := func(index int, locate string) error {
+		return o.metaService.UpdateLocate(meta.Name, meta.Bucket, ver.Hash, index, locate)
 	}
 	opt := &StreamOption{
 		Hash:     ver.Hash,
diff --git a/src/apiserver/internal/usecase/service/rs_get_stream.go b/src/apiserver/internal/usecase/service/rs_get_stream.go
index aad13a6..5450484 100644
--- a/src/apiserver/internal/usecase/service/rs_get_stream.go
+++ b/src/apiserver/internal/usecase/service/rs_get_stream.go
@@ -167,20 +167,16 @@ func (g *RSGetStream) commitRewriters() error {
 	if !g.done() {
 		return nil
 	}
-	locates := append([]string{}, g.Locates...)
-	var needUpdate bool
 	for i, rw := range g.rewriters {
-		if rw != nil && errs[i] == nil {
-			locates[i] = rw.stream.Locate
-			needUpdate = true
+		if rw == nil || errs[i] != nil {
+			continue
 		}
-	}
-	if needUpdate {
 		if g.Updater == nil {
 			errs = append(errs, errors.New("locates updater required but nil"))
-		} else {
-			errs = append(errs, g.Updater(locates))
+			break
 		}
+		// only the rewritten ones: the others may have been moved since the version was read
+		errs = append(errs, g.Updater(i, rw.stream.Locate))
 	}
 	return errors.Join(errs...)
 }
diff --git a/src/apiserver/internal/usecase/service/stream_interface.go b/src/apiserver/internal/usecase/service/stream_interface.go
index 78effb5..a2b79de 100644
--- a/src/apiserver/internal/usecase/service/stream_interface.go
+++ b/src/apiserver/internal/usecase/service/stream_interface.go
@@ -18,7 +18,8 @@ type WriteCommitter interface {
 	Committer
 }
 
-type LocatesUpdater func(locates []string) error
+// LocatesUpdater records that the shard or copy of index is stored at locate now
+type LocatesUpdater func(index int, locate string) error
 
 type ReadSeekCloser interface {
 	io.ReadSeekCloser
diff --git a/src/apiserver/internal/usecase/webapi/meta_server.go b/src/apiserver/internal/usecase/webapi/meta_server.go
index fce8dc4..aa43da8 100644
--- a/src/apiserver/internal/usecase/webapi/meta_server.go
+++ b/src/apiserver/internal/usecase/webapi/meta_server.go
@@ -155,6 +155,28 @@ func PutVersion(ip, id string, body *entity.Version) error {
 	return nil
 }
 
+// PatchLocate changes one locate of all versions of hash
+func PatchLocate(ip, hash string, index int, locate string) error {
+	defer perform(true)()
+	req, err := request.JsonReq(http.MethodPatch, fmt.Sprintf("http://%s/version/locate", ip), map[string]any{
+		"hash":        hash,
+		"locateIndex": index,
+		"locate":      locate,
+	})
+	if err != nil {
+		return err
+	}
+	resp, err := httpClient.Do(req)
+	if err != nil {
+		return err
+	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+	}
+	return nil
+}
+
 // DelVersion verNum < 0 will delete all version
 func DelVersion(ip, name string, verNum int32) error {
 	defer perform(true)()
-- 
2.43.0


From e45541c1629a9ca063e640c17f7b6d7c2b9f4eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 53/64] fix: ask the auth callback about the bucket a request
 is executed with

---
 .../internal/usecase/componet/auth/callback_validator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/auth/callback_validator.go b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
index 42ce775..43ef837 100644
--- a/src/apiserver/internal/usecase/componet/auth/callback_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
@@ -39,11 +39,12 @@ func (cv *CallbackValidator) Middleware(c *gin.Context) (bool, error) {
 	if !cv.cfg.Enable {
 		return false, nil
 	}
-	var bucket string
-	idx := strings.IndexByte(c.Request.Host, '.')
-	if idx > 0 {
+	// the header is what the request will be executed with
+	bucket := c.GetHeader("Bucket")
+	if idx := strings.IndexByte(c.Request.Host, '.'); bucket == "" && idx > 0 {
 		bucket = c.Request.Host[:idx]
-	} else if bucket = c.GetHeader("Bucket"); bucket == "" {
+	}
+	if bucket == "" {
 		return false, response.NewError(http.StatusBadRequest, "Host or Header does not contains bucket")
 	}
 	token := &credential.CallbackToken{
-- 
2.43.0


From c4ade31a73febe22bee5f38ec8537c1a49c3960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 54/64] fix: refuse what the auth callback does not allow,
 whatever it answers

---
 .../internal/usecase/componet/auth/callback_validator.go      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/apiserver/internal/usecase/componet/auth/callback_validator.go b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
index 43ef837..2d9c315 100644
--- a/src/apiserver/internal/usecase/componet/auth/callback_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/callback_validator.go
@@ -30,6 +30,10 @@ func (cv *CallbackValidator) Verify(token Credential) error {
 		return err
 	}
 	if resp.StatusCode != http.StatusOK {
+		// never answer a request as done that is not executed
+		if resp.StatusCode < http.StatusBadRequest {
+			return response.NewError(http.StatusForbidden, resp.Status)
+		}
 		return response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
 	return nil
-- 
2.43.0


From bd5da4afeeef3aed691ef84b02a57ae3c21057a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 55/64] fix: never replace a stored credential with the
 configured one

---
 .../componet/auth/password_validator.go       | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/apiserver/internal/usecase/componet/auth/password_validator.go b/src/apiserver/internal/usecase/componet/auth/password_validator.go
index dcaeeef..191e396 100644
--- a/src/apiserver/internal/usecase/componet/auth/password_validator.go
+++ b/src/apiserver/internal/usecase/componet/auth/password_validator.go
@@ -30,11 +30,8 @@ func (pv *PasswordValidator) init(cfg *PasswordConfig) {
 	if !cfg.Enable {
 		return
 	}
-	resp, err := pv.cli.Get(context.Background(), cst.EtcdPrefix.ApiCredential)
-	if err != nil {
-		logs.Std().Errorf("init PasswordValidator: %s", err)
-	} else if len(resp.Kvs) != 0 || cfg.Username == "" || cfg.Password == "" {
-		logs.Std().Info("exist credential, skip init admin credential")
+	if cfg.Username == "" || cfg.Password == "" {
+		logs.Std().Info("no credential configured, skip init admin credential")
 		return
 	}
 	bt, err := util.EncodeMsgp(&credential.AdminCredential{
@@ -44,9 +41,19 @@ func (pv *PasswordValidator) init(cfg *PasswordConfig) {
 	if err != nil {
 		panic(err)
 	}
-	_, err = pv.cli.Put(context.Background(), cst.EtcdPrefix.ApiCredential, string(bt))
+	// never replace an existing one
+	key := cst.EtcdPrefix.ApiCredential
+	resp, err := pv.cli.Txn(context.Background()).
+		If(clientv3.Compare(clientv3.CreateRevision(key), "=", 0)).
+		Then(clientv3.OpPut(key, string(bt))).
+		Commit()
 	if err != nil {
 		logs.Std().Errorf("init PasswordValidator: %s", err)
+		return
+	}
+	if !resp.Succeeded {
+		logs.Std().Info("exist credential, skip init admin credential")
+		return
 	}
 	logs.Std().Infof("password authenticator init success: username=%s", cfg.Username)
 }
-- 
2.43.0


From cdddbd41a0c8b8b4a64dd505608e86a0f664fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 56/64] fix: change and delete exactly the bucket that is named

---
 src/apiserver/internal/usecase/webapi/bucket_api.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/apiserver/internal/usecase/webapi/bucket_api.go b/src/apiserver/internal/usecase/webapi/bucket_api.go
index 18205c4..a4e577b 100644
--- a/src/apiserver/internal/usecase/webapi/bucket_api.go
+++ b/src/apiserver/internal/usecase/webapi/bucket_api.go
@@ -7,11 +7,12 @@ import (
 	"common/util"
 	"fmt"
 	"net/http"
+	"net/url"
 )
 
 func GetBucket(ip, name string) (*entity.Bucket, error) {
 	defer perform(false)()
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("http://%s/bucket/%s", ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -28,7 +29,7 @@ func GetBucket(ip, name string) (*entity.Bucket, error) {
 
 func PutBucket(ip string, data *entity.Bucket) error {
 	defer perform(true)()
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("http://%s/bucket/%s", ip, data.Name), data)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("http://%s/bucket/%s", ip, url.PathEscape(data.Name)), data)
 	if err != nil {
 		return err
 	}
@@ -62,7 +63,7 @@ func PostBucket(ip string, data *entity.Bucket) error {
 
 func DeleteBucket(ip, name string) error {
 	defer perform(true)()
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("http://%s/bucket/%s", ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("http://%s/bucket/%s", ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cdf93737f16ed095ea414157b4e76f09e121e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 57/64] fix: ask the API server for exactly the object or
 bucket that is named

---
 src/adminserver/internal/usecase/webapi/api_server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/adminserver/internal/usecase/webapi/api_server.go b/src/adminserver/internal/usecase/webapi/api_server.go
index 6cded40..466272c 100644
--- a/src/adminserver/internal/usecase/webapi/api_server.go
+++ b/src/adminserver/internal/usecase/webapi/api_server.go
@@ -13,8 +13,8 @@ import (
 )
 
 func ListVersion(ip, name, bucket string, page, pageSize int, token string) ([]byte, int, error) {
-	url := fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, name, page, pageSize)
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	uri := fmt.Sprintf("%s://%s/v1/metadata/%s/versions?page=%d&page_size=%d", GetSchema(), ip, url.PathEscape(name), page, pageSize)
+	req, err := http.NewRequest(http.MethodGet, uri, nil)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -55,7 +55,7 @@ func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, t
 }
 
 func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, error) {
-	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, name, version), nil)
+	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, url.PathEscape(name), version), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -106,7 +106,7 @@ func CreateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func UpdateBucket(ip string, b *msg.Bucket, token string) error {
-	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, b.Name), b)
+	req, err := request.JsonReq(http.MethodPut, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(b.Name)), b)
 	if err != nil {
 		return err
 	}
@@ -123,7 +123,7 @@ func UpdateBucket(ip string, b *msg.Bucket, token string) error {
 }
 
 func DeleteBucket(ip, name string, token string) error {
-	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, name), nil)
+	req, err := http.NewRequest(http.MethodDelete, fmt.Sprintf("%s://%s/v1/bucket/%s", GetSchema(), ip, url.PathEscape(name)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d1e58578c3fceae7dbc2fb147eed867dfe396a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 58/64] fix: order objects the way the metadata servers list
 them

---
 src/common/proto/msg/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/proto/msg/metadata.go b/src/common/proto/msg/metadata.go
index a4852a9..993c672 100644
--- a/src/common/proto/msg/metadata.go
+++ b/src/common/proto/msg/metadata.go
@@ -22,7 +22,7 @@ type Metadata struct {
 }
 
 func (z *Metadata) ID() string {
-	return fmt.Sprintf(z.Bucket, "/", z.Name)
+	return fmt.Sprint(z.Bucket, "/", z.Name)
 }
 
 type Version struct {
-- 
2.43.0


From 4218efc4b195b5785c95f52b0d771d4471bc6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 59/64] fix: tell the number of objects on pages behind the
 last one, too

---
 src/adminserver/internal/usecase/logic/metadata_logic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adminserver/internal/usecase/logic/metadata_logic.go b/src/adminserver/internal/usecase/logic/metadata_logic.go
index 7c13dcd..d068735 100644
--- a/src/adminserver/internal/usecase/logic/metadata_logic.go
+++ b/src/adminserver/internal/usecase/logic/metadata_logic.go
@@ -81,7 +81,7 @@ func (m Metadata) MetadataPaging(cond *MetadataCond) ([]*msg.Metadata, int, erro
 	if st, ed, ok := util.PagingOffset(cond.Page, cond.PageSize, len(lst)); ok {
 		return lst[st:ed], totals, nil
 	}
-	return []*msg.Metadata{}, 0, nil
+	return []*msg.Metadata{}, totals, nil
 }
 
 func (m Metadata) VersionPaging(cond MetadataCond, token string) ([]byte, int, error) {
-- 
2.43.0


From 6c047ac7f79202df03fe9c83011fa86b83ef43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 60/64] fix: count all records that match, not only those of
 the page

---
 src/metaserver/internal/usecase/logic/bucket_logic.go |  8 +++++++-
 src/metaserver/internal/usecase/repo/metadata_repo.go | 10 +++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/metaserver/internal/usecase/logic/bucket_logic.go b/src/metaserver/internal/usecase/logic/bucket_logic.go
index 0c28f48..40b57a6 100644
--- a/src/metaserver/internal/usecase/logic/bucket_logic.go
+++ b/src/metaserver/internal/usecase/logic/bucket_logic.go
@@ -127,7 +127,6 @@ func (b *BucketCrud) List(prefix string, limit int, res *[]*msg.Bucket, total *i
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(prefixBt)
-			defer func() { *total = len(*res) }()
 		} else {
 			*total = root.Stats().KeyN
 			k, v = cur.First()
@@ -146,6 +145,13 @@ func (b *BucketCrud) List(prefix string, limit int, res *[]*msg.Bucket, total *i
 			*res = append(*res, &i)
 			k, v = cur.Next()
 		}
+		// count all of them, not only those within the limit
+		if prefix != "" {
+			*total = len(*res)
+			for ; k != nil && bytes.HasPrefix(k, prefixBt); k, v = cur.Next() {
+				*total++
+			}
+		}
 		return nil
 	}
 }
diff --git a/src/metaserver/internal/usecase/repo/metadata_repo.go b/src/metaserver/internal/usecase/repo/metadata_repo.go
index 953e1c4..1eb75c7 100644
--- a/src/metaserver/internal/usecase/repo/metadata_repo.go
+++ b/src/metaserver/internal/usecase/repo/metadata_repo.go
@@ -220,7 +220,6 @@ func (m *MetadataRepo) ListMetadata(prefix string, size int) (lst []*msg.Metadat
 		var k, v []byte
 		if prefix != "" {
 			k, v = cur.Seek(util.StrToBytes(prefix))
-			defer func() { total = len(lst) }()
 		} else {
 			k, v = cur.First()
 			total = root.Stats().KeyN
@@ -238,6 +237,15 @@ func (m *MetadataRepo) ListMetadata(prefix string, size int) (lst []*msg.Metadat
 			}
 			k, v = cur.Next()
 		}
+		// count all of them, not only those within the limit
+		if prefix != "" {
+			total = len(lst)
+			for ; k != nil && strings.HasPrefix(util.BytesToStr(k), prefix); k, v = cur.Next() {
+				if len(v) > 0 {
+					total++
+				}
+			}
+		}
 		return nil
 	})
 	return
-- 
2.43.0


From ee206c41c3a7d159c16e313e5e39f8f57de8b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:10 +0000
Subject: [PATCH 61/64] fix: keep recording usage of servers when etcd fails

---
 .../internal/usecase/db/server_stat_db.go     | 75 +++++++++++++------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/src/adminserver/internal/usecase/db/server_stat_db.go b/src/adminserver/internal/usecase/db/server_stat_db.go
index 4413eb5..4d08e71 100644
--- a/src/adminserver/internal/usecase/db/server_stat_db.go
+++ b/src/adminserver/internal/usecase/db/server_stat_db.go
@@ -56,6 +56,13 @@ func (st *statTimeline) Append(cpu *TimeStat, mem *TimeStat) {
 	}
 }
 
+func (st *statTimeline) clone() *statTimeline {
+	cp := newStatTimeline()
+	cp.cpu.PushBackList(st.cpu)
+	cp.mem.PushBackList(st.mem)
+	return cp
+}
+
 func (st *statTimeline) CPUTimeline() []*TimeStat {
 	arr := make([]*TimeStat, 0, st.cpu.Len())
 	for itr := st.cpu.Front(); itr != nil; itr = itr.Next() {
@@ -82,6 +89,7 @@ type ServerStatDB struct {
 	GroupName string
 	Services  []string
 	closeFn   func()
+	mux       sync.Mutex // protects timeline
 	timeline  map[string]map[string]*statTimeline
 }
 
@@ -96,40 +104,58 @@ func NewServerStatDB(cli ServerStatCli, groupName string, services []string) *Se
 	return o
 }
 
+// GetTimeline returns a copy of timelines
 func (sdb *ServerStatDB) GetTimeline(servName string) map[string]*statTimeline {
-	if tls, ok := sdb.timeline[servName]; ok {
-		return tls
+	sdb.mux.Lock()
+	defer sdb.mux.Unlock()
+	res := make(map[string]*statTimeline, len(sdb.timeline[servName]))
+	for id, tl := range sdb.timeline[servName] {
+		res[id] = tl.clone()
 	}
-	return map[string]*statTimeline{}
+	return res
 }
 
 func (sdb *ServerStatDB) init() {
 	ctx, cancel := context.WithCancel(context.Background())
 	sdb.closeFn = cancel
-	var mux sync.Mutex
 	for _, name := range sdb.Services {
 		go func(v string) {
 			defer graceful.Recover()
 			prefix := cst.EtcdPrefix.FmtSystemInfo(sdb.GroupName, v, "")
-			// init value
-			res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
-			if err != nil {
-				statLog.Errorf("init stat of %s fail, %s", v, err)
-			}
-			for _, kv := range res.Kvs {
-				mux.Lock()
-				if err := sdb.addStat(v, kv.Key, kv.Value); err != nil {
-					statLog.Error(err)
+			// revision of the last known change
+			var rev int64
+			for ctx.Err() == nil {
+				// changes that are missed while not watching
+				res, err := sdb.Cli.Get(ctx, prefix, clientv3.WithPrefix())
+				if err != nil {
+					statLog.Errorf("get stat of %s fail, %s", v, err)
+				} else {
+					for _, kv := range res.Kvs {
+						if kv.ModRevision > rev {
+							sdb.saveStat(v, kv)
+						}
+					}
+					rev = res.Header.Revision
+					// watch channel until it is broken
+					rev = sdb.watching(v, rev, sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix(), clientv3.WithRev(rev+1)))
+				}
+				select {
+				case <-ctx.Done():
+				case <-time.After(2 * time.Second):
 				}
-				mux.Unlock()
 			}
-			// watch channel
-			ch := sdb.Cli.Watch(ctx, prefix, clientv3.WithPrefix())
-			sdb.watching(v, ch)
 		}(name)
 	}
 }
 
+func (sdb *ServerStatDB) saveStat(serv string, kv *mvccpb.KeyValue) {
+	sdb.mux.Lock()
+	defer sdb.mux.Unlock()
+	if err := sdb.addStat(serv, kv.Key, kv.Value); err != nil {
+		statLog.Error(err)
+	}
+}
+
 func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
 	ts := time.Now()
 	mp, ok := sdb.timeline[serv]
@@ -158,17 +184,24 @@ func (sdb *ServerStatDB) addStat(serv string, key, value []byte) error {
 	return nil
 }
 
-func (sdb *ServerStatDB) watching(serv string, ch clientv3.WatchChan) {
+// watching saves stats until the channel is closed, returns the revision of the last one
+func (sdb *ServerStatDB) watching(serv string, rev int64, ch clientv3.WatchChan) int64 {
 	for v := range ch {
+		if err := v.Err(); err != nil {
+			statLog.Errorf("watch stat of %s abort, %s", serv, err)
+			break
+		}
 		for _, event := range v.Events {
+			if event.Kv.ModRevision > rev {
+				rev = event.Kv.ModRevision
+			}
 			if event.Type != mvccpb.PUT {
 				continue
 			}
-			if err := sdb.addStat(serv, event.Kv.Key, event.Kv.Value); err != nil {
-				statLog.Error(err)
-			}
+			sdb.saveStat(serv, event.Kv)
 		}
 	}
+	return rev
 }
 
 func (sdb *ServerStatDB) Close() error {
-- 
2.43.0


From baaccf49ef6deb85236401e5a7f6ed8d563fd184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 62/64] fix: let downloads which are cut off be recognised

---
 src/adminserver/internal/controller/http/object.go | 14 +++++++++++++-
 .../internal/usecase/logic/object_logic.go         |  2 +-
 .../internal/usecase/webapi/api_server.go          | 11 ++++++-----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/adminserver/internal/controller/http/object.go b/src/adminserver/internal/controller/http/object.go
index 4bdb5d1..19b0246 100644
--- a/src/adminserver/internal/controller/http/object.go
+++ b/src/adminserver/internal/controller/http/object.go
@@ -4,7 +4,9 @@ import (
 	"adminserver/internal/entity"
 	"adminserver/internal/usecase/logic"
 	"adminserver/internal/usecase/pool"
+	"common/logs"
 	"common/response"
+	"common/util"
 	"github.com/gin-gonic/gin"
 	"io"
 	"mime/multipart"
@@ -52,12 +54,22 @@ func (oc *ObjectsController) Download(c *gin.Context) {
 		response.FailErr(err, c)
 		return
 	}
-	reader, err := logic.NewObjects().Download(body.Name, body.Bucket, body.Version, GetAuthToken(c))
+	reader, size, err := logic.NewObjects().Download(body.Name, body.Bucket, body.Version, GetAuthToken(c))
 	if err != nil {
 		response.FailErr(err, c)
 		return
 	}
+	defer reader.Close()
+	// with content-length, client is able to find out that response is incomplete
+	if size >= 0 {
+		c.Header("Content-Length", util.IntString(size))
+	}
 	if _, err = io.Copy(c.Writer, reader); err != nil {
+		if c.Writer.Written() {
+			logs.Std().Error(err)
+			return
+		}
+		c.Writer.Header().Del("Content-Length")
 		response.FailErr(err, c)
 		return
 	}
diff --git a/src/adminserver/internal/usecase/logic/object_logic.go b/src/adminserver/internal/usecase/logic/object_logic.go
index b46c4e2..e7489bb 100644
--- a/src/adminserver/internal/usecase/logic/object_logic.go
+++ b/src/adminserver/internal/usecase/logic/object_logic.go
@@ -36,7 +36,7 @@ func (Objects) Upload(file *multipart.FileHeader, bucket, token string) error {
 	return webapi.PutObjects(SelectApiServer(), file.Filename, hash, bucket, fileBody, file.Size, token)
 }
 
-func (Objects) Download(name, bucket string, version int, token string) (io.ReadCloser, error) {
+func (Objects) Download(name, bucket string, version int, token string) (io.ReadCloser, int64, error) {
 	return webapi.GetObjects(SelectApiServer(), name, bucket, version, token)
 }
 
diff --git a/src/adminserver/internal/usecase/webapi/api_server.go b/src/adminserver/internal/usecase/webapi/api_server.go
index 466272c..d64a231 100644
--- a/src/adminserver/internal/usecase/webapi/api_server.go
+++ b/src/adminserver/internal/usecase/webapi/api_server.go
@@ -54,21 +54,22 @@ func PutObjects(ip, name, sha256, bucket string, fileIO io.Reader, size int64, t
 	return nil
 }
 
-func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, error) {
+// GetObjects returns body and size of an object. Size is negative if it's unknown.
+func GetObjects(ip, name, bucket string, version int, token string) (io.ReadCloser, int64, error) {
 	req, err := http.NewRequest(http.MethodGet, fmt.Sprintf("%s://%s/v1/objects/%s?version=%d", GetSchema(), ip, url.PathEscape(name), version), nil)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	req.Header.Set("Bucket", bucket)
 	req.Header.Set("Authorization", token)
 	resp, err := pool.Http.Do(req)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	if resp.StatusCode != http.StatusOK {
-		return nil, response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
+		return nil, 0, response.NewError(resp.StatusCode, response.MessageFromJSONBody(resp.Body))
 	}
-	return resp.Body, nil
+	return resp.Body, resp.ContentLength, nil
 }
 
 func CheckToken(ip, token string) error {
-- 
2.43.0


From 00ee9623cc05c89bfb9f63b65bfd51f36c255656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:30 +0000
Subject: [PATCH 63/64] fix: take + in the path of a request for what it is

---
 src/metaserver/internal/controller/http/http.go     |  4 +++-
 .../internal/controller/http/middleware.go          | 13 +++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/metaserver/internal/controller/http/http.go b/src/metaserver/internal/controller/http/http.go
index a95a418..36a2a96 100644
--- a/src/metaserver/internal/controller/http/http.go
+++ b/src/metaserver/internal/controller/http/http.go
@@ -21,12 +21,14 @@ func NewHttpServer(port string, grpcServer *grpc.Server, service IMetadataServic
 	engine.Use(
 		gin.LoggerWithWriter(logs.Std().Out),
 		gin.RecoveryWithWriter(logs.Std().Out),
+		UnescapePathValues,
 		CheckInNormal,
 		CheckLeaderInRaftMode,
 		CheckKeySlot,
 	)
 	engine.UseRawPath = true
-	engine.UnescapePathValues = true
+	// gin unescapes like a query, which takes "+" for a space. see UnescapePathValues
+	engine.UnescapePathValues = false
 	//Http router
 	NewMetadataController(service).RegisterRoute(engine)
 	NewVersionController(service).RegisterRoute(engine)
diff --git a/src/metaserver/internal/controller/http/middleware.go b/src/metaserver/internal/controller/http/middleware.go
index 36d77fa..05e10ba 100644
--- a/src/metaserver/internal/controller/http/middleware.go
+++ b/src/metaserver/internal/controller/http/middleware.go
@@ -6,6 +6,7 @@ import (
 	"metaserver/internal/usecase/logic"
 	"metaserver/internal/usecase/pool"
 	"net/http"
+	"net/url"
 )
 
 func isWriteMethod(method string) bool {
@@ -38,6 +39,18 @@ func CheckInNormal(c *gin.Context) {
 	c.Next()
 }
 
+// UnescapePathValues unescapes parameters which are taken from the raw path
+func UnescapePathValues(c *gin.Context) {
+	if c.Request.URL.RawPath != "" {
+		for i := range c.Params {
+			if v, err := url.PathUnescape(c.Params[i].Value); err == nil {
+				c.Params[i].Value = v
+			}
+		}
+	}
+	c.Next()
+}
+
 func CheckKeySlot(c *gin.Context) {
 	if isWriteMethod(c.Request.Method) {
 		name := c.Param("name")
-- 
2.43.0


From 3516b2e6934405490790b0db1ea2b4c5b2f846da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:05 +0000
Subject: [PATCH 64/64] fix: let no metadata server which is down miss the
 moving of an object

---
 .../usecase/service/migration_service.go      | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/objectserver/internal/usecase/service/migration_service.go b/src/objectserver/internal/usecase/service/migration_service.go
index 2b63471..b07de64 100644
--- a/src/objectserver/internal/usecase/service/migration_service.go
+++ b/src/objectserver/internal/usecase/service/migration_service.go
@@ -4,6 +4,7 @@ import (
 	"common/cst"
 	"common/datasize"
 	"common/graceful"
+	"common/hashslot"
 	"common/logs"
 	"common/proto"
 	"common/proto/pb"
@@ -26,7 +27,9 @@ import (
 	"path/filepath"
 	"strings"
 	"sync"
+	"time"
 
+	clientv3 "go.etcd.io/etcd/client/v3"
 	"google.golang.org/grpc"
 	"sync/atomic"
 )
@@ -291,6 +294,9 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	if len(servs) == 0 {
 		return fmt.Errorf("not exist meta-server")
 	}
+	if err = checkSlotsServed(servs); err != nil {
+		return err
+	}
 	for _, addr := range servs {
 		wg.Add(1)
 		go func(ip string) {
@@ -316,6 +322,39 @@ func (ms *MigrationService) FinishObject(data *pb.ObjectInfo) error {
 	return nil
 }
 
+// checkSlotsServed returns an error if any slot is owned by none of the servers,
+// so that a server which is down can not miss an update
+func checkSlotsServed(servs map[string]string) error {
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	res, err := pool.Etcd.Get(ctx, cst.EtcdPrefix.FmtHashSlot(pool.Config.Registry.Group, ""), clientv3.WithPrefix())
+	if err != nil {
+		return fmt.Errorf("get slots of meta-servers err: %w", err)
+	}
+	slotsMap := make(map[string][]string, len(res.Kvs))
+	for _, kv := range res.Kvs {
+		var info hashslot.SlotInfo
+		if err = util.DecodeMsgp(&info, kv.Value); err != nil {
+			return fmt.Errorf("decode slots of meta-server err: %w", err)
+		}
+		if len(info.Slots) == 0 {
+			continue
+		}
+		if _, ok := servs[info.ServerID]; !ok {
+			return fmt.Errorf("meta-server %s is not available", info.ServerID)
+		}
+		slotsMap[info.ServerID] = info.Slots
+	}
+	slots, err := hashslot.WrapSlots(slotsMap)
+	if err != nil {
+		return fmt.Errorf("slots of meta-servers err: %w", err)
+	}
+	if _, fully := hashslot.FindRangeCurrentData(0, hashslot.MaxSlot, slots); !fully {
+		return fmt.Errorf("some slots are served by no meta-server")
+	}
+	return nil
+}
+
 // ReceivingFile is a file being received, which is not an object until it is committed
 type ReceivingFile struct {
 	*os.File
-- 
2.43.0

