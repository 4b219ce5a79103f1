package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"slices"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/humanize"

	"verifharness/fw"
	"verifharness/model"
)

// dumpCatalog is the complete observable content of a catalog.
func dumpCatalog(cat catalog.Catalog) string {
	var b strings.Builder
	plural := func(ctx, id string) {
		for _, n := range []any{0, 1, 2, 3, 5, 7, 11, 12, 21, 100, 101, 111, 1000000, "1.5", 0.5} {
			s, err := cat.LookupPlural(ctx, id, n)
			fmt.Fprintf(&b, "  n=%v %q %v\n", n, s, err)
		}
	}
	switch x := cat.(type) {
	case *catalog.GettextCatalog:
		fmt.Fprintf(&b, "gettext %s %q\n", x.Language(), x.Domain())
		m := x.Messages()
		for _, ctx := range fw.SortedKeys(m) {
			for i, id := range fw.SortedKeys(m[ctx]) {
				tr := m[ctx][id].Translations()
				fmt.Fprintf(&b, "%q %q %v\n", ctx, id, len(tr))
				ks := []int{}
				for k := range tr {
					ks = append(ks, k)
				}
				sort.Ints(ks)
				for _, k := range ks {
					fmt.Fprintf(&b, "  %d=%q\n", k, tr[k])
				}
				s, err := cat.Lookup(ctx, id)
				fmt.Fprintf(&b, "  %q %v\n", s, err)
				if i < 4 || len(tr) > 1 && i < 40 {
					plural(ctx, id)
				}
			}
		}
	case catalog.JSONCatalog:
		fmt.Fprintf(&b, "json %s %q\n", x.Language(), x.Domain())
		m := x.Messages()
		for _, k := range fw.SortedKeys(m) {
			msg := m[k]
			fmt.Fprintf(&b, "%q ctx=%q comment=%q\n", k, msg.Context, msg.Comment)
			for c := 0; c < 8; c++ {
				for cc, s := range msg.Translations {
					if int(cc) == c {
						fmt.Fprintf(&b, "  %s=%q\n", cc, s)
					}
				}
			}
			id := strings.TrimSuffix(k, "_"+msg.Context)
			s, err := cat.Lookup(msg.Context, id)
			fmt.Fprintf(&b, "  %q %v\n", s, err)
			plural(msg.Context, id)
		}
	default:
		fmt.Fprintf(&b, "%T %v", cat, cat)
	}
	return b.String()
}

// faultPlan says how a file behaves.
type faultPlan struct {
	Kind     string
	At       int // position of a read error
	Chunk    int // largest read
	Zero     bool
	WithData bool // the last data come together with the error or EOF
	Err      error
}

func (p faultPlan) String() string {
	return fmt.Sprintf("%s at %d chunk %d zero %v withData %v err %v", p.Kind, p.At, p.Chunk, p.Zero, p.WithData, p.Err)
}

// faultReader delivers data by its plan; the end is EOF or the error of the plan.
type faultReader struct {
	data  []byte
	plan  faultPlan
	pos   int
	flip  bool
	ended bool
	calls int
}

func (r *faultReader) Read(p []byte) (int, error) {
	r.calls++
	end, fin := len(r.data), io.EOF
	if r.plan.Kind == "read" {
		end, fin = r.plan.At, r.plan.Err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.plan.Zero && !r.flip {
		r.flip = true
		return 0, nil
	}
	r.flip = false
	n := min(len(p), end-r.pos)
	if r.plan.Chunk > 0 {
		n = min(n, r.plan.Chunk)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && (n == 0 || r.plan.WithData) {
		r.ended = true
		return n, fin
	}
	return n, nil
}

// faultFS is a file system with failing operations.
type faultFS struct {
	files   fstest.MapFS
	target  string
	plan    faultPlan
	statErr map[string]error // failing Stat calls
	openErr map[string]error
	opened  int
	closed  int
	useStat bool
	readers []*faultReader
	log     []string
}

func (f *faultFS) Open(name string) (fs.File, error) {
	f.log = append(f.log, "open "+name)
	if err := f.openErr[name]; err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	x, err := f.files.Open(name)
	if err != nil {
		return nil, err
	}
	f.opened++
	ff := &faultFile{File: x, fs: f, name: name}
	if name == f.target {
		ff.r = &faultReader{data: f.files[name].Data, plan: f.plan}
		f.readers = append(f.readers, ff.r)
	}
	return ff, nil
}

// statFS adds a Stat method.
type statFS struct{ *faultFS }

func (f statFS) Stat(name string) (fs.FileInfo, error) {
	f.log = append(f.log, "stat "+name)
	if err := f.statErr[name]; err != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
	}
	return f.files.Stat(name)
}

type faultFile struct {
	fs.File
	fs     *faultFS
	name   string
	r      *faultReader
	closed bool
	read   bool
}

func (f *faultFile) Read(p []byte) (int, error) {
	f.read = true
	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.r != nil {
		return f.r.Read(p)
	}
	return f.File.Read(p)
}

func (f *faultFile) Stat() (fs.FileInfo, error) {
	if err := f.fs.statErr[f.name]; err != nil {
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: err}
	}
	return f.File.Stat()
}

func (f *faultFile) Close() error {
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	f.fs.closed++
	if f.r != nil && f.fs.plan.Kind == "close" && f.read {
		return f.fs.plan.Err
	}
	return nil
}

type faultErr struct{ n int }

func (e *faultErr) Error() string { return fmt.Sprintf("injected fault %d", e.n) }

func faultError(t *fw.T) error {
	return fw.Pick(t, []error{&faultErr{t.IntN(1000)}, &faultErr{7}, fs.ErrPermission, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, fs.ErrClosed, fmt.Errorf("wrapped: %w", &faultErr{8}), &fs.PathError{Op: "read", Path: "x", Err: errors.New("input/output error")}, io.ErrNoProgress})
}

var faultTags = []string{"de", "pl", "ar", "fr", "ja", "ru", "cy", "la", "pt-BR"}

func smallCatalog(t *fw.T, domain string) *wcat {
	w := &world{Contexts: []string{"", "ctx", "é"}, IDs: []string{"a", "b", "c", "apple", "x y", "é", "last", "one", "two", "three"}}
	kinds := []string{"po", "po-nohdr", "po-cldr", "po-flag", "mo", "mo-nohdr", "mo-cldr", "mo-flag", "json"}
	return w.fillCatalog(t, language.MustParse(fw.Pick(t, faultTags)), domain, worldOpts{Kinds: kinds, Dead: t.Chance(2), Verbs: t.Chance(2), Plurals: t.Chance(2)})
}

func decoderOf(kind string) catalog.Decoder {
	switch {
	case kind == "json":
		return catalog.NewJSONDecoder()
	case kind == "po-cldr":
		return catalog.NewPoCLDRDecoder()
	case kind == "mo-cldr":
		return catalog.NewMoCLDRDecoder()
	case strings.HasPrefix(kind, "mo"):
		return catalog.NewMoDecoder()
	}
	return catalog.NewPoDecoder()
}

// c09load: loading a file from a file system with faults.
func c09load(t *fw.T) {
	domain := fw.Pick(t, []string{"", "dom", "django"})
	c := smallCatalog(t, domain)
	whole := dumpCatalog(c.Real)
	plan := faultPlan{Kind: fw.Pick(t, []string{"none", "none", "read", "read", "read", "close", "open", "stat", "vanish"})}
	if t.Chance(2) {
		plan.Chunk = fw.Pick(t, []int{1, 2, 3, 7, 64, 511, 4096})
	}
	plan.Zero = t.Chance(6)
	plan.WithData = t.Chance(3)
	plan.Err = faultError(t)
	plan.At = t.IntN(len(c.Data) + 1)
	if t.Chance(5) {
		plan.At = fw.Pick(t, []int{0, len(c.Data), len(c.Data) - 1, min(28, len(c.Data))})
	}
	ffs := &faultFS{files: fstest.MapFS{}, plan: plan, statErr: map[string]error{}, openErr: map[string]error{}}
	names := languageNames(c.Tag)
	s := searchSetup{Tag: c.Tag, Domain: domain, Exts: []string{c.Ext}}
	all, _ := s.candidates()
	var paths []string
	for _, p := range all {
		if !slices.Contains(paths, p) {
			paths = append(paths, p)
		}
	}
	k := t.IntN(len(paths))
	ffs.target = paths[k]
	ffs.files[ffs.target] = &fstest.MapFile{Data: c.Data, ModTime: time.Unix(1, 0)}
	// A later file would be found if the first one was taken for missing
	if t.Chance(3) && k+1 < len(paths) {
		p := paths[k+1+t.IntN(len(paths)-k-1)]
		if p != ffs.target && !strings.HasPrefix(p, ffs.target+"/") && !strings.HasPrefix(ffs.target, p+"/") {
			ffs.files[p] = &fstest.MapFile{Data: []byte("another file")}
		}
	}
	ffs.useStat = t.Chance(2)
	switch plan.Kind {
	case "open":
		ffs.openErr[ffs.target] = plan.Err
	case "stat":
		p := paths[t.IntN(k+1)]
		ffs.statErr[p] = plan.Err
		if !ffs.useStat {
			ffs.openErr[p] = plan.Err
		}
	case "vanish": // the file is there for Stat but not for Open
		ffs.useStat = true
		ffs.openErr[ffs.target] = fs.ErrNotExist
	}
	var fsys fs.FS = ffs
	if ffs.useStat {
		fsys = statFS{ffs}
	}
	t.Note("%s %s domain %q target %s stat %v\nplan %s\nnames %q\ndata %q", c.Kind, c.Tag, domain, ffs.target, ffs.useStat, plan, names, c.Data)

	opts := []spreak.FsOption{spreak.WithFs(fsys)}
	dec := decoderOf(c.Kind)
	v1 := t.Chance(4)
	if v1 {
		dec = onlyV1{dec}
	}
	if v1 || strings.HasSuffix(c.Kind, "-cldr") || t.Chance(3) {
		opts = append(opts, spreak.WithDecoder(c.Ext, dec))
	}

	fail := plan.Kind != "none" && plan.Kind != "vanish"
	what := ""
	route := t.IntN(3)
	var cat catalog.Catalog
	var err error
	var bundle *spreak.Bundle
	switch route {
	case 0, 1:
		l, e := spreak.NewFilesystemLoader(opts...)
		if e != nil {
			t.Fail("create", "NewFilesystemLoader failed: %v", e)
		}
		cat, err = l.Load(c.Tag, domain)
		what = "Load"
	default:
		what = "NewBundle"
		lang := spreak.WithRequiredLanguage
		if t.Chance(2) {
			lang = spreak.WithLanguage
			what = "NewBundle(optional)"
		}
		bundle, err = spreak.NewBundle(spreak.WithSourceLanguage(language.English), spreak.WithFilesystemLoader(domain, opts...), lang(c.Tag), spreak.WithDefaultDomain(domain))
	}
	if ffs.opened != ffs.closed {
		t.Fail("left-open", "%s: %d files were opened, %d closed", what, ffs.opened, ffs.closed)
	}
	if len(ffs.readers) > 0 {
		t.Count("reads", ffs.readers[len(ffs.readers)-1].calls)
	}
	if _, other := ffs.files[ffs.target]; plan.Kind == "vanish" && other {
		// nothing is promised if files change during the search, except that it is no catalog of another file
		if route < 2 && err == nil {
			t.Fail("vanished", "%s of a vanished file returned a catalog", what)
		}
		return
	}
	switch {
	case fail:
		if err == nil {
			t.Fail(plan.Kind+"-ignored", "%s reported no error", what)
		}
		if cat != nil || bundle != nil {
			t.Fail(plan.Kind+"-catalog", "%s returned %T / %v together with the error %v", what, cat, bundle != nil, err)
		}
		if !errors.Is(err, plan.Err) {
			t.Fail(plan.Kind+"-error", "%s returned the error %v, not the cause %v", what, err, plan.Err)
		}
		var nf *spreak.ErrNotFound
		if _, is := plan.Err.(*spreak.ErrNotFound); !is && errors.As(err, &nf) {
			t.Fail(plan.Kind+"-missing", "%s reported the file as missing: %v", what, err)
		}
		t.Count("fault "+plan.Kind, 1)
		t.Distinct(plan.Kind, plan.At, plan.Chunk, plan.WithData, c.Data)
	default:
		if err != nil {
			t.Fail("short-reads", "%s failed: %v", what, err)
		}
		if cat != nil {
			if d := dumpCatalog(cat); d != whole {
				t.Fail("incomplete", "%s returned another catalog:\n%s\ninstead of\n%s", what, d, whole)
			}
		} else {
			l := spreak.NewLocalizer(bundle, c.Tag)
			if l.Language() != c.Tag {
				t.Fail("unloaded", "the bundle has no %s", c.Tag)
			}
			for ctx, m := range c.Live {
				for id, forms := range m {
					want := forms[0]
					if c.JSON {
						want = forms[int(categoryByName["Other"])]
					}
					if want == "" {
						want = id
					}
					if got := l.PGet(ctx, id); got != want {
						t.Fail("incomplete", "PGet(%q, %q) = %q instead of %q", ctx, id, got, want)
					}
				}
			}
		}
		if plan.Chunk > 0 {
			t.Count("short reads", 1)
		}
		t.Distinct(plan.Kind, plan.Chunk, plan.WithData, c.Data)
	}
}

// onlyV1 hides DecodeReader.
type onlyV1 struct{ d catalog.Decoder }

func (d onlyV1) Decode(l language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	return d.d.Decode(l, domain, data)
}

// c09reader: the decoders and parsers themselves with such readers.
func c09reader(t *fw.T) {
	c := smallCatalog(t, "dom")
	whole := dumpCatalog(c.Real)
	dec, ok := decoderOf(c.Kind).(catalog.DecoderV2)
	if !ok {
		return
	}
	for i := 0; i < 6; i++ {
		plan := faultPlan{Kind: "none", Chunk: fw.Pick(t, []int{0, 1, 2, 5, 13, 100}), Zero: t.Chance(4), WithData: t.Chance(2), Err: faultError(t), At: t.IntN(len(c.Data) + 1)}
		if t.Chance(2) {
			plan.Kind = "read"
		}
		r := &faultReader{data: c.Data, plan: plan}
		var src io.Reader = r
		if plan.Kind == "none" && t.Chance(4) {
			src = bytes.NewReader(c.Data)
		} else if t.Chance(4) {
			src = &seekReader{faultReader: r}
		}
		cat, err := dec.DecodeReader(c.Tag, "dom", src)
		if plan.Kind == "none" {
			if err != nil {
				t.Fail("reader", "%s: DecodeReader with %s failed: %v\n%q", c.Kind, plan, err, c.Data)
			}
			if d := dumpCatalog(cat); d != whole {
				t.Fail("reader-incomplete", "%s: DecodeReader with %s returned\n%s\ninstead of\n%s", c.Kind, plan, d, whole)
			}
			t.Count("readers", 1)
		} else {
			if err == nil || cat != nil {
				t.Fail("reader-ignored", "%s: DecodeReader with %s returned %v, %v\n%q", c.Kind, plan, cat != nil, err, c.Data)
			}
			if !errors.Is(err, plan.Err) {
				t.Fail("reader-error", "%s: DecodeReader with %s returned the error %v\n%q", c.Kind, plan, err, c.Data)
			}
			t.Count("failing readers", 1)
		}
		if c.Ext == ".po" {
			p := po.NewParser()
			p.SetIgnoreComments(t.Chance(2))
			f, err := p.Parse(&faultReader{data: c.Data, plan: plan})
			if plan.Kind == "none" && err != nil {
				t.Fail("parser", "Parse with %s failed: %v\n%q", plan, err, c.Data)
			}
			if plan.Kind == "read" && (err == nil || f != nil || !errors.Is(err, plan.Err)) {
				t.Fail("parser-error", "Parse with %s returned %v, %v\n%q", plan, f != nil, err, c.Data)
			}
		}
		t.Distinct(c.Data, plan.Kind, plan.At, plan.Chunk)
		t.Eval(1)
	}
}

// seekReader can also seek to its beginning.
type seekReader struct{ *faultReader }

func (r *seekReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(r.pos)
	case io.SeekEnd:
		off += int64(len(r.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = int(min(off, int64(len(r.data))))
	return off, nil
}

// c09truncate: every prefix of binary and JSON catalogs.
func c09truncate(t *fw.T) {
	c := smallCatalog(t, "dom")
	if c.Ext == ".po" {
		// A cut within a string or keyword is an error
		c09cutPO(t, c)
		return
	}
	whole := dumpCatalog(c.Real)
	dec := decoderOf(c.Kind)
	t.Note("%s %s data %q", c.Kind, c.Tag, c.Data)
	intact := 0
	for n := 0; n < len(c.Data); n++ {
		var cat catalog.Catalog
		var err error
		if d2, ok := dec.(catalog.DecoderV2); ok && t.Chance(3) {
			cat, err = d2.DecodeReader(c.Tag, "dom", bytes.NewReader(c.Data[:n:n]))
		} else {
			cat, err = dec.Decode(c.Tag, "dom", c.Data[:n:n])
		}
		if err == nil {
			if d := dumpCatalog(cat); d != whole {
				t.Fail("truncated", "cut to %d of %d bytes it is accepted as\n%s\ninstead of\n%s", n, len(c.Data), d, whole)
			}
			intact++
		} else if cat != nil && !isNilCatalog(cat) {
			t.Fail("truncated-catalog", "cut to %d of %d bytes it returns a catalog and the error %v", n, len(c.Data), err)
		}
		t.Eval(1)
	}
	t.Count("prefixes rejected", len(c.Data)-intact)
	t.Count("prefixes intact", intact)
	t.Distinct(c.Data)
}

func isNilCatalog(c catalog.Catalog) bool { return c == nil }

// c09cutPO: a PO file that ends within a string is rejected.
func c09cutPO(t *fw.T, c *wcat) {
	mc := model.Gen(t.Rand, model.Opts{Level: 1, Entries: 1 + t.IntN(3), Forms: 2})
	text := mc.PO(t.Rand, model.Layout{})
	in, esc, comment, start := false, false, false, true
	for i := 0; i < len(text); i++ {
		ch := text[i]
		switch {
		case comment:
			comment = ch != '\n'
		case in && esc:
			esc = false
		case in && ch == '\\':
			esc = true
		case ch == '"':
			in = !in
		case ch == '#' && start:
			comment = true
		}
		start = ch == '\n'
		if in {
			if f, err := po.ParseString(text[:i+1]); err == nil {
				t.Fail("cut-string", "cut to %d bytes, within a string, it is accepted: %q -> %v", i+1, text[:i+1], f != nil)
			}
			t.Count("cut strings rejected", 1)
			t.Eval(1)
		}
	}
	t.Distinct(text)
}

// c09humanize: the loader of the humanize package.
func c09humanize(t *fw.T) {
	header := "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n"
	text := header + "msgid \"today\"\nmsgstr \"heute\"\n\nmsgid \"yesterday\"\nmsgstr \"gestern\"\n"
	kind := fw.Pick(t, []string{"none", "open", "read", "close", "syntax", "missing", "nofs"})
	plan := faultPlan{Kind: kind, Err: faultError(t), At: t.IntN(len(text) + 1), Chunk: t.IntN(5), WithData: t.Chance(2)}
	ffs := &faultFS{files: fstest.MapFS{}, plan: plan, target: "django.po", statErr: map[string]error{}, openErr: map[string]error{}}
	data := text
	if kind == "syntax" {
		data = text + "msgid \"x\"\nmsgstr \"unterminated\n"
	}
	if kind != "missing" {
		ffs.files["django.po"] = &fstest.MapFile{Data: []byte(data)}
	}
	ffs.files[fw.Pick(t, []string{"django.mo", "other.po", "de/django.po", "de.po"})] = &fstest.MapFile{Data: []byte("x")}
	if kind == "open" {
		ffs.openErr["django.po"] = plan.Err
	}
	t.Note("plan %s", plan)
	data2 := &humanize.LocaleData{Lang: language.German, Fs: ffs}
	coll, err := humanize.New(humanize.WithLocale(data2))
	if ffs.opened != ffs.closed {
		t.Fail("left-open", "humanize: %d files were opened, %d closed", ffs.opened, ffs.closed)
	}
	switch kind {
	case "none", "missing", "close", "nofs":
		// fs.ReadFile of the standard library ignores errors of Close
		if err != nil && kind != "close" {
			t.Fail("humanize", "New failed: %v", err)
		}
		if kind == "missing" && err == nil {
			// optional languages are skipped
			h := coll.CreateHumanizer(language.German)
			if s := h.NaturalDay(time.Now()); s != "today" {
				t.Fail("humanize-missing", "NaturalDay = %q without catalog", s)
			}
		} else if err == nil {
			h := coll.CreateHumanizer(language.German)
			if s := h.NaturalDay(time.Now()); s != "heute" {
				t.Fail("humanize-text", "NaturalDay = %q", s)
			}
		}
	case "syntax":
		if err == nil || coll != nil {
			t.Fail("humanize-syntax", "New accepted a broken catalog")
		}
	default:
		if err == nil || coll != nil {
			t.Fail("humanize-ignored", "New ignored the fault %s", plan)
		}
		if !errors.Is(err, plan.Err) {
			t.Fail("humanize-error", "New returned %v instead of %v", err, plan.Err)
		}
	}
	t.Count("humanize "+kind, 1)
	t.Distinct(kind, plan.At, plan.Err)
}

// c09others: faults of one language or domain do not pass unnoticed between others.
func c09others(t *fw.T) {
	tags := []language.Tag{language.German, language.French, language.Polish, language.Japanese}
	domains := []string{"", "d1", "d2"}[:1+t.IntN(3)]
	ffs := &faultFS{files: fstest.MapFS{}, statErr: map[string]error{}, openErr: map[string]error{}}
	var paths []string
	for _, tag := range tags {
		for _, d := range domains {
			p := path.Join(tag.String(), d+".po")
			if d == "" {
				p = tag.String() + ".po"
			}
			ffs.files[p] = &fstest.MapFile{Data: []byte(fmt.Sprintf("msgid \"x\"\nmsgstr \"%s %s\"\n", tag, d))}
			paths = append(paths, p)
		}
	}
	ffs.target = fw.Pick(t, paths)
	ffs.plan = faultPlan{Kind: fw.Pick(t, []string{"read", "close", "open"}), Err: &faultErr{t.IntN(100)}}
	ffs.plan.At = t.IntN(len(ffs.files[ffs.target].Data) + 1)
	if ffs.plan.Kind == "open" {
		ffs.openErr[ffs.target] = ffs.plan.Err
	}
	t.Note("target %s plan %s", ffs.target, ffs.plan)
	var opts []spreak.BundleOption
	for _, d := range domains {
		opts = append(opts, spreak.WithDomainFs(d, fs.FS(ffs)))
	}
	for _, tag := range tags {
		switch t.IntN(3) {
		case 0:
			opts = append(opts, spreak.WithRequiredLanguage(tag))
		case 1:
			opts = append(opts, spreak.WithLanguage(tag))
		default:
			opts = append(opts, spreak.WithFallbackLanguage(tag))
		}
	}
	t.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	n := 0
	if t.Chance(2) {
		opts = append(opts, spreak.WithMissingTranslationCallback(func(error) { n++ }))
	}
	// several fallback languages are not allowed
	b, err := spreak.NewBundle(opts...)
	if err == nil || b != nil {
		t.Fail("bundle-ignored", "NewBundle ignored the fault")
	}
	if !errors.Is(err, ffs.plan.Err) && !strings.Contains(err.Error(), "fallback") {
		t.Fail("bundle-error", "NewBundle returned %v", err)
	}
	if ffs.opened != ffs.closed {
		t.Fail("left-open", "%d files were opened, %d closed", ffs.opened, ffs.closed)
	}
	t.Count("bundles with one bad file", 1)
	t.Distinct(ffs.target, ffs.plan.String(), len(domains))
}

// c09large: files that do not fit into any buffer.
func c09large(t *fw.T) {
	mc := &model.Catalog{HasHeader: true, Header: []model.KV{{K: "Content-Type", V: "text/plain; charset=UTF-8"}, {K: "Plural-Forms", V: "nplurals=2; plural=(n != 1);"}}}
	msgs := map[string]any{}
	want := map[string]string{}
	n := 1 + t.IntN(fw.Pick(t, []int{3, 50, 1500}))
	long := t.IntN(n)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("id %d", i)
		text := fmt.Sprintf("text %d %s", i, model.Token(t.Rand, t.IntN(20)))
		if i == long {
			l := fw.Pick(t, []int{1000, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 100000, 300000})
			text += strings.Repeat(model.Token(t.Rand, 7)+" ", l/8) + model.Token(t.Rand, 1+l%8) + " end"
			if t.Chance(3) {
				id += text[:l]
			}
		}
		mc.Entries = append(mc.Entries, &model.Entry{ID: id, Str: map[int]string{0: text}})
		msgs[id] = text
		want[id] = text
	}
	var data []byte
	ext := fw.Pick(t, []string{".po", ".mo", ".json"})
	switch ext {
	case ".po":
		data = []byte(mc.PO(t.Rand, model.Layout{CRLF: t.Chance(4)}))
	case ".mo":
		data = model.MO(t.Rand, mc.Pairs(), model.RandMOLayout(t.Rand))
	default:
		data, _ = json.Marshal(msgs)
	}
	plan := faultPlan{Kind: "none", Chunk: fw.Pick(t, []int{0, 512, 4096, 4095, 65536, 1000}), WithData: t.Chance(2), Err: faultError(t), At: len(data) - t.IntN(min(len(data), 5000))}
	if t.Chance(3) {
		plan.Kind = "read"
		if t.Chance(2) {
			plan.At = t.IntN(len(data) + 1)
		}
	}
	ffs := &faultFS{files: fstest.MapFS{"de" + ext: &fstest.MapFile{Data: data}}, plan: plan, target: "de" + ext}
	t.Note("%s with %d messages, %d bytes, plan %s", ext, n, len(data), plan)
	l, err := spreak.NewFilesystemLoader(spreak.WithFs(ffs))
	if err != nil {
		panic(err)
	}
	cat, err := l.Load(language.German, "")
	if plan.Kind == "read" {
		if err == nil || cat != nil || !errors.Is(err, plan.Err) {
			t.Fail("large-ignored", "Load returned %v, %v", cat != nil, err)
		}
		t.Count("large files with a fault", 1)
	} else {
		if err != nil {
			t.Fail("large", "Load failed: %v", err)
		}
		for id, text := range want {
			if got, err := cat.Lookup("", id); err != nil || got != text {
				t.Fail("large-incomplete", "%d messages: Lookup(%s) = %d bytes, %v instead of %d bytes", n, clipText(id, 30), len(got), err, len(text))
			}
		}
		t.Count("large files", 1)
	}
	t.Count("bytes of large files", len(data))
	t.Distinct(ext, n, len(data), plan.At, plan.Kind)
}

func init() {
	register(&fw.Check{
		ID:   "C09",
		Rule: "Generated catalogs are loaded from a fault-injecting file system (open, stat, read and close errors at any position, short and empty reads, data together with EOF or the error) by the loader, a bundle, the decoders and the humanize package; every prefix of binary and JSON catalogs is decoded. The oracle is the catalog decoded from memory in one piece and the injected error. Non-trivial: distinct content and fault.",
		Gens: []fw.Gen{
			{Name: "load", Quick: 12000, Thor: 400000, Run: c09load},
			{Name: "readers", Quick: 3000, Thor: 80000, Run: c09reader},
			{Name: "truncate", Quick: 600, Thor: 15000, Run: c09truncate},
			{Name: "large", Quick: 400, Thor: 8000, Run: c09large},
			{Name: "humanize", Quick: 1500, Thor: 20000, Run: c09humanize},
			{Name: "bundles", Quick: 2000, Thor: 50000, Run: c09others},
		},
		MinNonTriv: 5000,
		Need:       []string{"fault read", "fault close", "fault open", "fault stat", "short reads", "prefixes rejected", "prefixes intact", "failing readers", "humanize read", "cut strings rejected"},
	})
}
