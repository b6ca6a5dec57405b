BURN='''package vdisc_test

import (
	"context"
	"errors"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
)

// demoDriver stores objects in memory; writes to names with a failing suffix fail.
type demoDriver struct {
	mu   sync.Mutex
	objs map[string][]byte
	fail string
}

func (d *demoDriver) Name() string { return "demo" }
func (d *demoDriver) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	return nil, os.ErrNotExist
}
func (d *demoDriver) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	return nil, os.ErrNotExist
}
func (d *demoDriver) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	return &demoWriter{d: d, url: url}, nil
}

type demoWriter struct {
	d   *demoDriver
	url string
	b   []byte
	n   int
}

func (w *demoWriter) Write(p []byte) (int, error) {
	if w.d.fail != "" && strings.HasSuffix(w.url, w.d.fail) && w.n >= demoSkip {
		return 0, errors.New("demo: disk full")
	}
	w.n++
	w.b = append(w.b, p...)
	return len(p), nil
}
func (w *demoWriter) Abort() {}
func (w *demoWriter) Commit() (driver.CommitInfo, error) {
	w.d.mu.Lock()
	defer w.d.mu.Unlock()
	w.d.objs[w.url] = w.b
	return driver.NewCommitInfo(w.url), nil
}

var demoOnce sync.Once
var demoDrv = &demoDriver{objs: map[string][]byte{}}

func demoBurn(t *testing.T, url, fail string) error {
	demoOnce.Do(func() { driver.Register("demo", demoDrv) })
	demoDrv.fail = fail
	dir := t.TempDir()
	if err := os.WriteFile(dir+"/a", []byte("hello"), 0o644); err != nil {
		t.Fatal(err)
	}
	b := vdisc.NewExtendedISO9660Builder(vdisc.BuilderConfig{URL: url})
	if err := b.AddFile("/a", dir+"/a", 5); err != nil {
		t.Fatal(err)
	}
	_, err := b.Build()
	return err
}

func TestDemo(t *testing.T) {
	if err := demoBurn(t, "demo:/x.vdisc", ""); err != nil {
		t.Fatal("demo: unexpected", err)
	}
	if err := demoBurn(t, "demo:/y.vdisc", "%s"); err == nil {
		t.Fatal("demo: burn reported success although writing failed")
	}
}
'''
seed('s01','P01','the output store accepts the create but fails writes of the compressed index, which happen only when the compressor is closed',
 'Build commits and reports a disc whose index was not written because the error of closing the compressor is dropped',
 [('pkg/vdisc/builder.go','''	if err := vdz.Close(); err != nil {
		return "", errors.Wrap(err, "closing gzip writer")
	}
''','''	vdz.Close()
''')],'pkg/vdisc',BURN%'y.vdisc'+'\n// the first write is the header of the compressed stream\nconst demoSkip = 1\n')

seed('s02','P02','a storage error in the middle of a directory record while a directory is being iterated',
 'a read error inside a directory record ends the iteration like an ordinary end of directory: listings are silently truncated',
 [('pkg/iso9660/walk.go','''		if err := DecodeDirectoryRecord(io.LimitReader(it.dir, int64(rlen)-1), &rec); err != nil {
			it.rec = nil
			it.recLen = -1
			it.err = err
			return false
''','''		if err := DecodeDirectoryRecord(io.LimitReader(it.dir, int64(rlen)-1), &rec); err != nil {
			it.rec = nil
			it.recLen = -1
			return false
''')],'pkg/iso9660','''package iso9660_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
)

type flakyISO struct {
	*bytes.Reader
	bad int64
}

func (f *flakyISO) ReadAt(p []byte, off int64) (int, error) {
	if off <= f.bad && f.bad < off+int64(len(p)) {
		return 0, errors.New("demo: i/o error")
	}
	return f.Reader.ReadAt(p, off)
}

func TestDemo(t *testing.T) {
	v := iso9660.NewNvidiaExtendedVolume()
	for i := 0; i < 10; i++ {
		o, err := storage.Open("zero:5")
		if err != nil {
			t.Fatal(err)
		}
		if err := v.AddFile(fmt.Sprintf("/file-%d", i), o); err != nil {
			t.Fatal(err)
		}
	}
	var buf bytes.Buffer
	if _, err := v.WriteMetadataTo(&buf); err != nil {
		t.Fatal(err)
	}
	img := buf.Bytes()
	var pvd iso9660.PrimaryVolumeDescriptor
	if err := iso9660.DecodePrimaryVolumeDescriptor(io.NewSectionReader(bytes.NewReader(img), 16*2048, 2048), &pvd); err != nil {
		t.Fatal(err)
	}
	root := int64(pvd.RootStart) * 2048
	// skip three records, then fail inside the fourth
	off := root
	for i := 0; i < 3; i++ {
		off += int64(img[off])
	}
	for _, bad := range []int64{-1, off + 4} {
		infos, err := iso9660.NewWalker(&flakyISO{bytes.NewReader(img), bad}).ReadDir("/")
		if bad < 0 && (err != nil || len(infos) < 10) {
			t.Fatal("demo: unexpected", err, len(infos))
		}
		if bad >= 0 && err == nil {
			t.Fatalf("demo: ReadDir reported success with %d entries after an i/o error", len(infos))
		}
	}
}
''')

seed('s03','P03','the consumer of a bucket listing rejects a page of a multi-page listing',
 'an error of the listing callback is dropped: the remaining pages are fetched and the listing reports success',
 [('pkg/s3util/listbucket.go','''		if err := callback(&page); err != nil {
			return err
		}
''','''		if err := callback(&page); err != nil && !page.IsTruncated {
			return err
		}
''')],'pkg/s3util','''package s3util_test

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/s3util"
)

type pages struct{ n int }

func (p *pages) RoundTrip(req *http.Request) (*http.Response, error) {
	p.n++
	body := "<ListVersionsResult><IsTruncated>true</IsTruncated><NextKeyMarker>k</NextKeyMarker></ListVersionsResult>"
	if p.n > 1 {
		body = "<ListVersionsResult><IsTruncated>false</IsTruncated></ListVersionsResult>"
	}
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(body)), Request: req}, nil
}

func TestDemo(t *testing.T) {
	calls := 0
	err := s3util.ListBucket(&http.Client{Transport: &pages{}}, "https://example.com/dir", func(*s3util.ListBucketPage) error {
		calls++
		if calls == 1 {
			return errors.New("demo: page rejected")
		}
		return nil
	})
	if err == nil {
		t.Fatalf("demo: listing reported success after %d pages although the first was rejected", calls)
	}
}
''')
