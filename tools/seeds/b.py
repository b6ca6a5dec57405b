def go(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n%s'%(pkg, ''.join('\t%s\n'%(i if '"' in i else '"'+i+'"') for i in imports.split()), body.lstrip('\n'))
V='github.com/NVIDIA/vdisc/pkg/'

seed('s04','P05','a writer that is aborted after its commit, as every deferred abort does',
 'aborting a local file writer whose temporary file is gone already removes the committed file',
 [('pkg/storage/file/writer.go','''	os.Remove(ow.f.Name())
	// TODO: log err
''','''	if err := os.Remove(ow.f.Name()); os.IsNotExist(err) {
		os.Remove(ow.path)
	}
	// TODO: log err
''')],'pkg/storage/file',go('filedriver_test','os testing '+V+'storage','''
func TestDemo(t *testing.T) {
	path := t.TempDir() + "/f"
	w, err := storage.Create(path)
	if err != nil {
		t.Fatal(err)
	}
	defer w.Abort()
	if _, err := w.Write([]byte("hello")); err != nil {
		t.Fatal(err)
	}
	if _, err := w.Commit(); err != nil {
		t.Fatal(err)
	}
	w.Abort()
	if b, err := os.ReadFile(path); err != nil || string(b) != "hello" {
		t.Fatal("demo: committed file is gone", err)
	}
}
'''))

seed('s05','P10','listing a path that is a file, then any other operation on the same in-memory store',
 'the store stays locked after a listing was refused because the path is not a directory',
 [('pkg/storage/ram/ram.go','''func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	d.mu.Lock()
	defer d.mu.Unlock()

	path, err := urlToPath(url)
	if err != nil {
		return nil, err
	}

	f, err := d.traverse("readdir", path)
	if err != nil {
		return nil, err
	}
''','''func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	path, err := urlToPath(url)
	if err != nil {
		return nil, err
	}

	d.mu.Lock()
	f, err := d.traverse("readdir", path)
	if err != nil {
		d.mu.Unlock()
		return nil, err
	}
'''),('pkg/storage/ram/ram.go','''			mode: child.Mode,
		})
	}
	return result, nil
''','''			mode: child.Mode,
		})
	}
	d.mu.Unlock()
	return result, nil
''')],'pkg/storage/ram',go('ramdriver_test','context testing time','').replace('"time"\n','"time"\n\n\tram "'+V+'storage/ram"\n')+'''
func TestDemo(t *testing.T) {
	d := ram.NewDriver()
	w, err := d.Create(context.Background(), "ram:/f")
	if err != nil {
		t.Fatal(err)
	}
	w.Write([]byte("x"))
	if _, err := w.Commit(); err != nil {
		t.Fatal(err)
	}
	if _, err := d.Readdir(context.Background(), "ram:/f"); err == nil {
		t.Fatal("demo: listed a file")
	}
	done := make(chan error)
	go func() {
		_, err := d.Stat(context.Background(), "ram:/f")
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("demo: deadlock")
	}
}
''')

seed('s06','P12','a positional read through a slice that does not start at zero, reaching behind its end',
 'the rest of a slice is computed from the offset inside the slice, so reads run over its end',
 [('pkg/storage/storage.go','''	off += s.base
	if max := s.limit - off; int64(len(p)) > max {
		p = p[0:max]
		n, err = s.o.ReadAt''','''	max := s.limit - off
	off += s.base
	if int64(len(p)) > max {
		p = p[0:max]
		n, err = s.o.ReadAt''')],
 'pkg/storage',go('storage_test','io testing '+V+'storage','''
func TestDemo(t *testing.T) {
	o, err := storage.Open("data:,abcdefghijkl")
	if err != nil {
		t.Fatal(err)
	}
	s := storage.Slice(o, 3, 4)
	for off := 0; off < 4; off++ {
		for n := 1; n < 8; n++ {
			want := "defg"[off:]
			if n < len(want) {
				want = want[:n]
			}
			b := make([]byte, n)
			m, err := s.ReadAt(b, int64(off))
			if err != nil && err != io.EOF || string(b[:m]) != want {
				t.Fatalf("demo: ReadAt(%d, %d) = %q %v", off, n, b[:m], err)
			}
		}
	}
}
'''))

seed('s07','P14','exactly the value 2^31',
 'a checked conversion accepts the first value that does not fit and returns a negative number',
 [('pkg/safecast/safecast.go','''func Uint32ToInt32(v uint32) int32 {
	if v > math.MaxInt32 {''','''func Uint32ToInt32(v uint32) int32 {
	if v > math.MaxInt32+1 {''')],'pkg/safecast',go('safecast_test','testing '+V+'safecast','''
func TestDemo(t *testing.T) {
	if safecast.Uint32ToInt32(1<<31-1) != 1<<31-1 {
		t.Fatal("demo: wrong value")
	}
	defer func() {
		if recover() == nil {
			t.Fatal("demo: 2^31 was converted")
		}
	}()
	safecast.Uint32ToInt32(1 << 31)
}
'''))

seed('s08','P15','a server that answers a range request with a range that ends where asked but starts elsewhere',
 'the bytes of another range are returned as those asked for',
 [('pkg/storage/http/object.go','contentRange.First != safecast.Int64ToUint64(off) || contentRange.Last','contentRange.First != safecast.Int64ToUint64(off) && contentRange.Last')],
 'pkg/storage/http',go('httpdriver_test','net/http net/http/httptest testing '+V+'storage','''
func TestDemo(t *testing.T) {
	shift := false
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == "HEAD" {
			w.Header().Set("Content-Length", "10")
			return
		}
		if shift {
			w.Header().Set("Content-Range", "bytes 3-5/10")
			w.WriteHeader(206)
			w.Write([]byte("345"))
			return
		}
		w.Header().Set("Content-Range", "bytes 2-5/10")
		w.WriteHeader(206)
		w.Write([]byte("2345"))
	}))
	defer srv.Close()
	o, err := storage.Open(srv.URL + "/x")
	if err != nil {
		t.Fatal(err)
	}
	defer o.Close()
	b := make([]byte, 4)
	if n, err := o.ReadAt(b, 2); n != 4 || err != nil || string(b) != "2345" {
		t.Fatal("demo: ", n, err, b)
	}
	shift = true
	if n, err := o.ReadAt(b, 2); err == nil {
		t.Fatal("demo: accepted another range", n)
	}
}
'''))

seed('s09','P11','a server that does not support HEAD requests and fails the GET that follows',
 'the response of the failed GET is never closed',
 [('pkg/storage/http/finfo.go','''		defer resp.Body.Close()
		if resp.StatusCode != 200 {
			return -1, fmt.Errorf("http get %q: HTTP %d", url, resp.StatusCode)
		}
''','''		if resp.StatusCode != 200 {
			return -1, fmt.Errorf("http get %q: HTTP %d", url, resp.StatusCode)
		}
		defer resp.Body.Close()
''')],'pkg/storage/http',go('httpdriver_test','io net/http strings testing','').replace('"testing"\n','"testing"\n\n\thttpdriver "'+V+'storage/http"\n')+'''
type demoBody struct {
	io.Reader
	open *int
}

func (b demoBody) Close() error { *b.open--; return nil }

type demoRT struct{ open int }

func (r *demoRT) RoundTrip(req *http.Request) (*http.Response, error) {
	r.open++
	code := 405
	if req.Method == "GET" {
		code = 403
	}
	return &http.Response{StatusCode: code, Header: http.Header{}, Body: demoBody{strings.NewReader("no"), &r.open}, Request: req}, nil
}

func TestDemo(t *testing.T) {
	r := &demoRT{}
	if _, err := httpdriver.Stat(&http.Client{Transport: r}, "http://localhost/x"); err == nil {
		t.Fatal("demo: no error")
	}
	if r.open != 0 {
		t.Fatal("demo: responses left open: ", r.open)
	}
}
''')

seed('s10','P24','the kernel forgets several references to an inode at once while others remain',
 'forgetting several references removes only one, so the inode is never deleted',
 [('pkg/isofuse/dir.go','entry.RefCnt = entry.RefCnt - op.N','entry.RefCnt--')],
 'pkg/isofuse',go('isofuse','context testing github.com/jacobsa/fuse/fuseops go.uber.org/zap '+V+'iso9660','''
func TestDemo(t *testing.T) {
	fs := &isoFS{logger: zap.NewNop(), finfos: map[fuseops.InodeID]*finfosEntry{7: {RefCnt: 3, Info: &iso9660.FileInfo{}}}}
	for _, n := range []uint64{2, 1} {
		if fs.finfos[7] == nil {
			t.Fatal("demo: deleted too early")
		}
		if err := fs.ForgetInode(context.Background(), &fuseops.ForgetInodeOp{Inode: 7, N: n}); err != nil {
			t.Fatal(err)
		}
	}
	if fs.finfos[7] != nil {
		t.Fatal("demo: the inode is still there")
	}
}
'''))

seed('s11','P26','the device queue is closed while a command is still being answered',
 'a command counts as answered before its answer was sent, so the response queue is closed under the sender',
 [('pkg/blockdev/cmdpool.go','''			req.out <- rsp
			req.done()
''','''			req.done()
			req.out <- rsp
''')],'pkg/blockdev',go('blockdev_test','testing time github.com/tnarg/go-tcmu '+V+'blockdev','''
type demoHandler struct{}

func (demoHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse, error) {
	return tcmu.SCSIResponse{}, nil
}

func TestDemo(t *testing.T) {
	p := blockdev.NewCmdPool(2, 512)
	in, out := make(chan *tcmu.SCSICmd), make(chan tcmu.SCSIResponse)
	if err := p.DevReady(demoHandler{})(in, out); err != nil {
		t.Fatal(err)
	}
	in <- &tcmu.SCSICmd{}
	close(in)
	time.Sleep(200 * time.Millisecond)
	n := 0
	for range out {
		n++
	}
	if n != 1 {
		t.Fatal("demo: answers: ", n)
	}
	p.Close()
}
'''))

seed('s12','P27','a positional read between two sequential reads of an in-memory object',
 'reading at an offset moves the sequential position',
 [('pkg/storage/ram/object.go','''	n, err = o.br.ReadAt(p, off)
	return
''','''	if _, err = o.br.Seek(off, 0); err != nil {
		return
	}
	n, err = o.br.Read(p)
	return
''')],'pkg/storage/ram',go('ramdriver_test','context io testing','').replace('"testing"\n','"testing"\n\n\tram "'+V+'storage/ram"\n')+'''
func TestDemo(t *testing.T) {
	d := ram.NewDriver()
	w, err := d.Create(context.Background(), "ram:/f")
	if err != nil {
		t.Fatal(err)
	}
	w.Write([]byte("0123456789"))
	if _, err := w.Commit(); err != nil {
		t.Fatal(err)
	}
	o, err := d.Open(context.Background(), "ram:/f", -1)
	if err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 2)
	for i, want := range []string{"01", "23", "45"} {
		if _, err := io.ReadFull(o, b); err != nil || string(b) != want {
			t.Fatalf("demo: sequential read %d: %q %v", i, b, err)
		}
		if n, err := o.ReadAt(b, 7); n != 2 || err != nil || string(b) != "78" {
			t.Fatalf("demo: %q %v", b, err)
		}
	}
}
''')

seed('s13','P29','removing an object of a driver that cannot remove',
 'removing an object whose driver cannot remove reports success',
 [('pkg/storage/storage.go','return errors.New(drvr.Name() + ": remove not implemented")','return nil')],
 'pkg/storage',go('storage_test','testing '+V+'storage','''
func TestDemo(t *testing.T) {
	if err := storage.Remove("zero:5"); err == nil {
		t.Fatal("demo: removed something that can not be removed")
	}
}
'''))

seed('s14','P22','adding an entry whose name is that of an existing entry with another type',
 'a file may be added under the name of an existing directory',
 [('pkg/iso9660/directoryinode.go','''	if _, ok := d.names[name]; ok {
		return errors.New("Directory entry collision")''','''	if other, ok := d.GetChild(name); ok && other.Type() == child.Type() {
		return errors.New("Directory entry collision")''')],
 'pkg/iso9660',go('iso9660_test','testing '+V+'iso9660 '+V+'storage','''
func TestDemo(t *testing.T) {
	v := iso9660.NewPosixPortableVolume()
	add := func(path string) error {
		o, err := storage.Open("zero:5")
		if err != nil {
			t.Fatal(err)
		}
		return v.AddFile(path, o)
	}
	if err := add("/a/b"); err != nil {
		t.Fatal(err)
	}
	if add("/a/b") == nil {
		t.Fatal("demo: two files with one name")
	}
	if add("/a") == nil {
		t.Fatal("demo: a file with the name of a directory")
	}
	if v.AddSymlink("/a/b", "c") == nil {
		t.Fatal("demo: a link with the name of a file")
	}
}
'''))

LOAD='''
func put(t *testing.T, url, data string) {
	w, err := storage.Create(url)
	if err != nil {
		t.Fatal(err)
	}
	defer w.Abort()
	if _, err := w.Write([]byte(data)); err != nil {
		t.Fatal(err)
	}
	if _, err := w.Commit(); err != nil {
		t.Fatal(err)
	}
}

// burn burns a disc with the files given, loads it and returns their contents.
func burn(t *testing.T, files ...string) []string {
	dir := t.TempDir()
	b := vdisc.NewExtendedISO9660Builder(vdisc.BuilderConfig{URL: dir + "/d.vdisc"})
	for i, data := range files {
		name := dir + "/" + string(rune('a'+i))
		put(t, name, data)
		if err := b.AddFile("/"+string(rune('a'+i)), name, int64(len(data))); err != nil {
			t.Fatal(err)
		}
	}
	url, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	v, err := vdisc.Load(url, caching.NopCache)
	if err != nil {
		t.Fatal(err)
	}
	defer v.Close()
	var out []string
	w := iso9660.NewWalker(v.Image())
	for i := range files {
		f, err := w.Open("/" + string(rune('a'+i)))
		if err != nil {
			t.Fatal(err)
		}
		data, err := io.ReadAll(f)
		if err != nil {
			t.Fatal("demo: ", err)
		}
		out = append(out, string(data))
	}
	return out
}
'''
LOADI='io testing '+V+'caching '+V+'iso9660 '+V+'storage '+V+'vdisc'
seed('s15','P23','an empty file followed by other files',
 'an empty file occupies one block in the image but none in the index, so the files after it are read from the wrong place',
 [('pkg/vdisc/builder.go','''	if (bytes%iso9660.LogicalBlockSize) != 0 || sectors == 0 {
		sectors++''','''	if (bytes % iso9660.LogicalBlockSize) != 0 {
		sectors++''')],
 'pkg/vdisc',go('vdisc_test',LOADI,LOAD+'''
func TestDemo(t *testing.T) {
	for i, s := range burn(t, "first", "", "third") {
		if want := []string{"first", "", "third"}[i]; s != want {
			t.Fatalf("demo: file %d is %q", i, s)
		}
	}
}
'''))

seed('s16','P13','a disc whose later files start beyond 4 GiB',
 'opening a file that starts beyond 4 GiB reads from the wrong place because the offset wraps around',
 [('pkg/iso9660/walk.go','r:    io.NewSectionReader(w.iso, int64(fi.Extent())*LogicalBlockSize, fi.Size()),','r:    io.NewSectionReader(w.iso, int64(fi.Extent()*LogicalBlockSize), fi.Size()),')],
 'pkg/iso9660',go('iso9660_test','bytes testing '+V+'iso9660 '+V+'storage','''
// demoImage has the metadata in front; what follows is not stored, only the offsets asked for are.
type demoImage struct {
	meta []byte
	last int64
}

func (m *demoImage) ReadAt(p []byte, off int64) (int, error) {
	m.last = off
	if off < int64(len(m.meta)) {
		return bytes.NewReader(m.meta).ReadAt(p, off)
	}
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	v := iso9660.NewPosixPortableVolume()
	for _, f := range []struct{ path, url string }{{"/a", "zero:6000000000"}, {"/b", "zero:5"}} {
		o, err := storage.Open(f.url)
		if err != nil {
			t.Fatal(err)
		}
		if err := v.AddFile(f.path, o); err != nil {
			t.Fatal(err)
		}
	}
	var buf bytes.Buffer
	if _, err := v.WriteMetadataTo(&buf); err != nil {
		t.Fatal(err)
	}
	img := &demoImage{meta: buf.Bytes()}
	f, err := iso9660.NewWalker(img).Open("/b")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := f.ReadAt(make([]byte, 5), 0); err != nil {
		t.Fatal(err)
	}
	if img.last < 6000000000 {
		t.Fatal("demo: read at ", img.last)
	}
}
'''))

seed('s17','P07','a source that fails to deliver a block once and recovers',
 'a block whose fill failed is served as if it had been read',
 [('pkg/caching/mem.go','''		// fill the buffer.
		b.key = ""
		b.n = 0
''','''		// fill the buffer.
		b.n = 0
''')],'pkg/caching',go('caching_test','errors io testing '+V+'caching '+V+'storage','''
type demoFlaky struct {
	storage.Object
	fail bool
}

func (f *demoFlaky) ReadAt(p []byte, off int64) (int, error) {
	if f.fail {
		return 0, errors.New("demo: i/o error")
	}
	return f.Object.ReadAt(p, off)
}

func TestDemo(t *testing.T) {
	slicer, err := caching.NewMemorySlicer(16, 4)
	if err != nil {
		t.Fatal(err)
	}
	cache := caching.NewCache(slicer, 0, 0)
	o, err := storage.Open("data:,0123456789")
	if err != nil {
		t.Fatal(err)
	}
	src := &demoFlaky{Object: o, fail: true}
	c := cache.WithCaching(src)
	b := make([]byte, 10)
	if _, err := c.ReadAt(b, 0); err == nil || err == io.EOF {
		t.Fatal("demo: failure not reported", err)
	}
	src.fail = false
	if n, err := c.ReadAt(b, 0); n != 10 || err != nil && err != io.EOF || string(b) != "0123456789" {
		t.Fatalf("demo: %d %v %q", n, err, b)
	}
}
'''))

seed('s18','P16','a server error 500 followed by a success',
 'an internal server error is returned at once instead of being retried',
 [('pkg/httputil/retry.go','resp.StatusCode >= 500','resp.StatusCode > 500')],
 'pkg/httputil',go('httputil_test','io net/http strings testing time '+V+'httputil','''
type demoRT struct{ codes []int }

func (r *demoRT) RoundTrip(req *http.Request) (*http.Response, error) {
	c := r.codes[0]
	r.codes = r.codes[1:]
	return &http.Response{StatusCode: c, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Request: req}, nil
}

func TestDemo(t *testing.T) {
	for _, c := range []int{500, 503, 429} {
		r := &demoRT{codes: []int{c, 200}}
		req, _ := http.NewRequest("GET", "http://localhost/", nil)
		resp, err := httputil.WithRetries(r, httputil.RetryOptions{InitialInterval: time.Millisecond}).RoundTrip(req)
		if err != nil || resp.StatusCode != 200 {
			t.Fatal("demo: not retried: ", c)
		}
	}
}
'''))

seed('s19','P28','a visitor that is told not to descend, with other directories still queued',
 'after a directory that is not to be visited, the worker gives up and directories beside it are lost',
 [('pkg/storage/driver/visitor.go','''				if !shouldVisit {
					continue
				}
''','''				if !shouldVisit {
					return
				}
''')],'pkg/storage/driver',go('driver_test','context os strings testing time '+V+'storage/driver','''
type demoDir struct{ name string }

func (d demoDir) Name() string       { return d.name }
func (d demoDir) Size() int64        { return 0 }
func (d demoDir) Mode() os.FileMode  { return os.ModeDir }
func (d demoDir) ModTime() time.Time { return time.Time{} }
func (d demoDir) IsDir() bool        { return true }
func (d demoDir) Sys() interface{}   { return nil }

type demoTree struct{}

func (demoTree) Name() string { return "tree" }
func (demoTree) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	return nil, os.ErrNotExist
}
func (demoTree) Stat(ctx context.Context, url string) (os.FileInfo, error) { return nil, os.ErrNotExist }
func (demoTree) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	if url == "root" {
		return []os.FileInfo{demoDir{"skip"}, demoDir{"keep"}}, nil
	}
	return nil, nil
}

type demoVisitor struct{ seen []string }

func (v *demoVisitor) Concurrency() int { return 1 }
func (v *demoVisitor) ShouldVisitDir(url string) (bool, error) {
	return !strings.HasSuffix(url, "skip"), nil
}
func (v *demoVisitor) VisitDir(url string, files []os.FileInfo) error {
	v.seen = append(v.seen, url)
	return nil
}

func TestDemo(t *testing.T) {
	v := &demoVisitor{}
	done := make(chan error)
	go func() { done <- driver.Visit(context.Background(), demoTree{}, "root", v) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("demo: stuck")
	}
	if strings.Join(v.seen, " ") != "root root/keep" {
		t.Fatal("demo: visited ", v.seen)
	}
}
'''))

seed('s20','P21','a name with characters outside ASCII',
 'the length a name entry announces counts characters, fewer than the bytes it writes',
 [('pkg/iso9660/rrip/nm.go','''func (nm *Name) Len() int {
	return len(nm.data) + 5
}''','''func (nm *Name) Len() int {
	n := 0
	for range nm.data {
		n++
	}
	return n + 5
}''')],'pkg/iso9660/rrip',go('rrip_test','bytes testing '+V+'iso9660/rrip','''
func TestDemo(t *testing.T) {
	for _, name := range []string{"plain", "caf\\u00e9"} {
		entries, err := rrip.NewName(name)
		if err != nil {
			t.Fatal(err)
		}
		for _, e := range entries {
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatal("demo: ", name, r)
					}
				}()
				var buf bytes.Buffer
				n, err := e.WriteTo(&buf)
				if err != nil || int(n) != e.Len() || buf.Len() != e.Len() || int(buf.Bytes()[2]) != e.Len() {
					t.Fatal("demo: ", name, n, err, e.Len())
				}
			}()
		}
	}
}
'''))


seed('s21','P08','a cached file whose key was recorded for another block with the same file name',
 'a cached file that has any key is served, whatever block it was written for',
 [('pkg/caching/disk.go','''					if bytes.Equal(ckey, ds.key) {
						// TODO: increment cache hit
''','''					if len(ckey) == len(ds.key) {
						// TODO: increment cache hit
''')],'pkg/caching',go('caching_test','os path/filepath strings testing golang.org/x/sys/unix '+V+'caching '+V+'storage','''
func TestDemo(t *testing.T) {
	root := t.TempDir()
	slicer := caching.NewDiskSlicer(root, 16)
	cache := caching.NewCache(slicer, 0, 0)
	src := t.TempDir() + "/src"
	if err := os.WriteFile(src, []byte("0123456789"), 0o644); err != nil {
		t.Fatal(err)
	}
	read := func() string {
		o, err := storage.Open(src)
		if err != nil {
			t.Fatal(err)
		}
		c := cache.WithCaching(o)
		defer c.Close()
		b := make([]byte, 10)
		if n, err := c.ReadAt(b, 0); n != 10 {
			t.Fatal("demo: ", n, err)
		}
		slicer.Wait()
		return string(b)
	}
	read()
	// make the cached file one of another block with the same file name
	n := 0
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || strings.HasPrefix(fi.Name(), ".") {
			return nil
		}
		n++
		key := make([]byte, 4096)
		l, err := unix.Getxattr(path, caching.XattrKey, key)
		if err != nil {
			t.Fatal(err)
		}
		key = key[:l]
		key[0] ^= 1
		if err := unix.Setxattr(path, caching.XattrKey, key, 0); err != nil {
			t.Fatal(err)
		}
		return os.WriteFile(path, []byte("##########"), 0o644)
	})
	if n != 1 {
		t.Fatal("cached files: ", n)
	}
	if got := read(); got != "0123456789" {
		t.Fatal("demo: served another block: ", got)
	}
}
'''))

seed('s22','P25','a cache directory that holds the lock file of a block',
 'garbage collection removes lock files as if they were cached blocks',
 [('pkg/caching/disk.go','!strings.HasPrefix(finfo.Name(), ".lock") &&','!strings.HasPrefix(finfo.Name(), "lock") &&')],
 'pkg/caching',go('caching_test','os syscall testing '+V+'caching','''
type demoAlways struct{}

func (demoAlways) GcNeeded(st *syscall.Statfs_t) bool { return true }

func TestDemo(t *testing.T) {
	root := t.TempDir()
	dir := root + "/v0/ab"
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"block", ".lock.block", ".tmp.block"} {
		if err := os.WriteFile(dir+"/"+n, []byte("x"), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	caching.NewDiskSlicer(root, 16).Gc(demoAlways{})
	if _, err := os.Stat(dir + "/block"); err == nil {
		t.Fatal("demo: nothing was evicted")
	}
	for _, n := range []string{".lock.block", ".tmp.block"} {
		if _, err := os.Stat(dir + "/" + n); err != nil {
			t.Fatal("demo: ", err)
		}
	}
}
'''))

seed('s23','P17','asking for the size of an HTTP object with an authorization in the context',
 'the size of an HTTP object is asked for without the authorization given',
 [('pkg/storage/http/http.go','''	name := stdpath.Base(u.Path)

	c := d.newClient(ctx)
''','''	name := stdpath.Base(u.Path)

	c := d.newClient(context.Background())
''')],'pkg/storage/http',go('httpdriver_test','context net/http net/http/httptest testing '+V+'storage','').replace('"testing"\n','"testing"\n\n\thttpdriver "'+V+'storage/http"\n')+'''
func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Header.Get("Authorization") != "Bearer demo" {
			w.WriteHeader(403)
			return
		}
		w.Header().Set("Content-Length", "10")
	}))
	defer srv.Close()
	ctx := httpdriver.CtxWithAuthz(context.Background(), "Bearer demo")
	if fi, err := storage.StatContext(ctx, srv.URL+"/x"); err != nil || fi.Size() != 10 {
		t.Fatal("demo: ", err)
	}
}
''')

B2=BURN.replace('demoDrv.fail = fail','demoDrv.fail = fail\n\tdemoDrv.open = 0').replace('fail string\n}','fail string\n\topen int\n\tlog  []string\n}').replace('return &demoWriter{d: d, url: url}, nil','d.open++\n\treturn &demoWriter{d: d, url: url}, nil').replace('func (w *demoWriter) Abort() {}','func (w *demoWriter) end() {\n\tif !w.ended {\n\t\tw.ended = true\n\t\tw.d.open--\n\t}\n}\nfunc (w *demoWriter) Abort() { w.end() }').replace('	n   int\n}','	n   int\n\n\tended bool\n}').replace('w.d.objs[w.url] = w.b','w.d.objs[w.url] = w.b\n\tw.end()\n\tw.d.log = append(w.d.log, w.url)')
B2=B2[:B2.index('func TestDemo(')]
seed('s24','P06','a store that fails writes of the index while the disc is burned',
 'the writer of the index is neither committed nor aborted when the burn fails',
 [('pkg/vdisc/builder.go','''	defer vd.Abort()

	var vdw io.Writer = vd
''','''
	var vdw io.Writer = vd
''')],'pkg/vdisc',B2+'''func TestDemo(t *testing.T) {
	if err := demoBurn(t, "demo:/x.vdisc", ""); err != nil || demoDrv.open != 0 {
		t.Fatal("demo: unexpected", err)
	}
	if err := demoBurn(t, "demo:/y.vdisc", "y.vdisc"); err == nil {
		t.Fatal("demo: burn reported success although writing failed")
	}
	if demoDrv.open != 0 {
		t.Fatal("demo: unfinished writers: ", demoDrv.open)
	}
}

const demoSkip = 0
''')

seed('s25','P04','a store that accepts the metadata in parts and fails late',
 'the metadata object is committed before its buffer was flushed, so the published object is incomplete',
 [('pkg/vdisc/builder.go','''	if err := metabuf.Flush(); err != nil {
		return "", errors.Wrap(err, "flushing iso9660 metadata")
	}

	metaCommitInfo, err := meta.Commit()
	if err != nil {
		return "", errors.Wrap(err, "closing "+metadataURL)
	}
''','''	metaCommitInfo, err := meta.Commit()
	if err != nil {
		return "", errors.Wrap(err, "closing "+metadataURL)
	}

	if err := metabuf.Flush(); err != nil {
		return "", errors.Wrap(err, "flushing iso9660 metadata")
	}
''')],'pkg/vdisc',B2+'''func TestDemo(t *testing.T) {
	if err := demoBurn(t, "demo:/x.vdisc", ""); err != nil {
		t.Fatal("demo: unexpected", err)
	}
	if n := len(demoDrv.objs["demo:/x.vdisc.isohdr"]); n == 0 || n%2048 != 0 {
		t.Fatal("demo: published metadata has ", n, " bytes")
	}
	if len(demoDrv.log) != 2 || demoDrv.log[1] != "demo:/x.vdisc" {
		t.Fatal("demo: published ", demoDrv.log)
	}
}

const demoSkip = 0
''')

seed('s26','P20','the copy of the path table with big-endian numbers',
 'the parent numbers of the big-endian path table are little endian',
 [('pkg/iso9660/pathtable.go','binary.Write(e.w, e.byteOrder, rec.ParentIndex)','binary.Write(e.w, binary.LittleEndian, rec.ParentIndex)')],
 'pkg/iso9660',go('iso9660_test','bytes encoding/binary testing '+V+'iso9660','''
func TestDemo(t *testing.T) {
	pt := &iso9660.PathTable{Records: []iso9660.PathTableRecord{{Identifier: "AB", Location: 0x01020304, ParentIndex: 0x0506}}}
	var b, l bytes.Buffer
	if _, err := iso9660.NewPathTableEncoder(binary.BigEndian, &b).Encode(pt); err != nil {
		t.Fatal(err)
	}
	if _, err := iso9660.NewPathTableEncoder(binary.LittleEndian, &l).Encode(pt); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(b.Bytes(), []byte{2, 0, 1, 2, 3, 4, 5, 6, 'A', 'B'}) || !bytes.Equal(l.Bytes(), []byte{2, 0, 4, 3, 2, 1, 6, 5, 'A', 'B'}) {
		t.Fatal("demo: ", b.Bytes(), l.Bytes())
	}
}
'''))

seed('s27','P20','a reader that looks directories up in the path table',
 'the path tables are written from records made before the directories had their addresses, so all of them point to block zero',
 [('pkg/iso9660/volume.go','''	pathTable = v.root.ToPathTable()

	// System Use Area''','''	v.root.ToPathTable()

	// System Use Area''')],'pkg/iso9660',go('iso9660_test','bytes encoding/binary testing '+V+'iso9660 '+V+'storage','''
func TestDemo(t *testing.T) {
	o, err := storage.Open("data:,hello")
	if err != nil {
		t.Fatal(err)
	}
	v := iso9660.NewVolume()
	if err := v.AddFile("a/b", o); err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if _, err := v.WriteMetadataTo(&b); err != nil {
		t.Fatal(err)
	}
	pvd := b.Bytes()[16*2048:]
	l := b.Bytes()[2048*binary.LittleEndian.Uint32(pvd[140:]):]
	m := b.Bytes()[2048*binary.BigEndian.Uint32(pvd[148:]):]
	root := binary.LittleEndian.Uint32(pvd[158:])
	if binary.LittleEndian.Uint32(l[2:]) != root || binary.BigEndian.Uint32(m[2:]) != root {
		t.Fatal("demo: path table names another root", l[:10], m[:10], root)
	}
}
'''))

seed('s28','P03','a server that refuses to delete the object',
 'a refused deletion (any status below 500) is reported as success',
 [('pkg/storage/http/delete.go','if resp.StatusCode != 204 {','if resp.StatusCode >= 500 {')],'pkg/storage/http',go('httpdriver_test','net/http net/http/httptest net/url testing','').replace('"testing"\n','"testing"\n\n\thttpdriver "'+V+'storage/http"\n')+'''
func TestDemo(t *testing.T) {
	code := 204
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(code) }))
	defer srv.Close()
	u, err := url.Parse(srv.URL + "/x")
	if err != nil {
		t.Fatal(err)
	}
	if err := httpdriver.Delete(srv.Client(), u.String(), u); err != nil {
		t.Fatal("demo:", err)
	}
	for _, code = range []int{403, 404, 500} {
		if err := httpdriver.Delete(srv.Client(), u.String(), u); err == nil {
			t.Fatal("demo: deletion succeeded with status", code)
		}
	}
}
''')

seed('s29','P09','an object opened while another one is committed to the same in-memory store',
 'opening reads the inode table after the lock was given up',
 [('pkg/storage/ram/ram.go','''	d.mu.Lock()
	defer d.mu.Unlock()

	path, err := urlToPath(url)
	if err != nil {
		return nil, err
	}

	f, err := d.traverse("open", path)
''','''	path, err := urlToPath(url)
	if err != nil {
		return nil, err
	}

	d.mu.Lock()
	f, err := d.traverse("open", path)
	d.mu.Unlock()
''')],'pkg/storage/ram',go('ramdriver_test','context fmt sync testing time','').replace('"time"\n','"time"\n\n\tram "'+V+'storage/ram"\n')+'''
func demoPut(d *ram.Driver, name string) error {
	w, err := d.Create(context.Background(), "ram:/"+name)
	if err != nil {
		return err
	}
	if _, err := w.Write([]byte("x")); err != nil {
		return err
	}
	_, err = w.Commit()
	return err
}

func TestDemo(t *testing.T) {
	d := ram.NewDriver()
	if err := demoPut(d, "f"); err != nil {
		t.Fatal(err)
	}
	end := time.Now().Add(8 * time.Second)
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; time.Now().Before(end); n++ {
				if i < 2 {
					if err := demoPut(d, fmt.Sprintf("d%d/%d", i, n%5000)); err != nil {
						t.Error(err)
						return
					}
				} else if o, err := d.Open(context.Background(), "ram:/f", -1); err != nil {
					t.Error(err)
					return
				} else {
					o.Close()
				}
			}
		}()
	}
	wg.Wait()
}
''')

seed('s31','P19','a local index file that is damaged',
 'a disc whose index cannot be decoded is removed from local storage while loading it',
 [('pkg/vdisc/loader.go','''	msg, err := capnp.Unmarshal(raw)
	if err != nil {
		mmapHandle.Close()
''','''	msg, err := capnp.Unmarshal(raw)
	if err != nil {
		if baseURL.Scheme == "" {
			os.Remove(baseURL.Path)
		}
		mmapHandle.Close()
''')],'pkg/vdisc',go('vdisc_test','os testing '+V+'vdisc','''
func TestDemo(t *testing.T) {
	path := t.TempDir() + "/disc.vdsc"
	if err := os.WriteFile(path, []byte("this is not the index of a disc"), 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := vdisc.Load(path, nil); err == nil {
		t.Fatal("demo: loaded")
	}
	if _, err := os.Stat(path); err != nil {
		t.Fatal("demo: the file is gone", err)
	}
}
'''))

RECS='''
func list(t *testing.T, recs ...*iso9660.DirectoryRecord) []*iso9660.FileInfo {
	var b bytes.Buffer
	for _, rec := range recs {
		rec.Recorded = time.Unix(0, 0).UTC()
		if _, err := rec.WriteTo(&b); err != nil {
			t.Fatal(err)
		}
	}
	dir := make([]byte, 2048)
	copy(dir, b.Bytes())
	var infos []*iso9660.FileInfo
	it := iso9660.NewReadDirIterator(bytes.NewReader(dir), 0, 2048, 0)
	for it.Next() {
		fi, _ := it.FileInfoAndLen()
		infos = append(infos, fi)
	}
	if err := it.Err(); err != nil {
		t.Fatal(err)
	}
	return infos
}
'''
seed('s32','P30','a file of more than two extents (above eight gigabytes)',
 'the size of a file recorded in three or more records leaves out the middle ones',
 [('pkg/iso9660/walk.go','''				size += int64(next.Length)
''','''				size = int64(curr.Length) + int64(next.Length)
''')],'pkg/iso9660',go('iso9660_test','bytes testing time '+V+'iso9660','''
func TestDemo(t *testing.T) {
	var recs []*iso9660.DirectoryRecord
	for i := 0; i < 3; i++ {
		recs = append(recs, &iso9660.DirectoryRecord{Identifier: "BIG.;1", Start: iso9660.LogicalBlockAddress(20 + 2*i), Length: 4096})
	}
	infos := list(t, recs...)
	if len(infos) != 1 || infos[0].Size() != 3*4096 {
		t.Fatal("demo: wrong size of a file of three records", len(infos))
	}
}
'''+RECS))
seed('s33','P30','an entry whose owner and group differ',
 'the group reported for an entry is its owner',
 [('pkg/iso9660/walk.go','''		gid = pe.Gid
''','''		gid = pe.Uid
''')],'pkg/iso9660',go('iso9660_test','bytes testing time '+V+'iso9660 '+V+'iso9660/rrip '+V+'iso9660/susp','''
func TestDemo(t *testing.T) {
	pe := &rrip.PosixEntry{Mode: 0100644, Nlink: 1, Uid: 7, Gid: 8, Ino: 9}
	infos := list(t, &iso9660.DirectoryRecord{Identifier: "A.;1", Start: 20, Length: 5, SystemUse: []susp.SystemUseEntry{pe}})
	if len(infos) != 1 || infos[0].Uid() != 7 || infos[0].Gid() != 8 {
		t.Fatal("demo: wrong owner or group", len(infos))
	}
}
'''+RECS))
