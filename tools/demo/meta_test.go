package repo

import (
	"common/cache"
	"common/proto/msg"
	"metaserver/internal/usecase/db"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

func newRepo(t *testing.T) *MetadataRepo {
	t.Helper()
	st := db.NewStorage()
	if err := st.Open(filepath.Join(t.TempDir(), "x.db")); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { st.Stop() })
	conf := bigcache.DefaultConfig(time.Minute)
	conf.Verbose = false
	return NewMetadataRepo(st, NewMetadataCacheRepo(cache.NewCache(conf)))
}

func ok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func ver(s string) *msg.Version {
	return &msg.Version{Hash: "h" + s, UniqueId: "u" + s, Ts: 1, Locate: []string{"o", "o"}}
}
