package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing/fstest"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"

	"verifharness/fw"
)

// languageNames are the documented file names of a language: the tag itself, its base in ISO 639-1 and
// ISO 639-3 form and the base with region or script, from the most specific (longest) to the least specific one.
func languageNames(tag language.Tag) []string {
	set := map[string]bool{tag.String(): true}
	base, bc := tag.Base()
	if bc != language.No {
		set[base.String()] = true
		set[base.ISO3()] = true
		if r, c := tag.Region(); c != language.No {
			set[base.String()+"_"+r.String()] = true
			set[base.String()+"-"+r.String()] = true
		}
		if s, c := tag.Script(); c != language.No {
			set[base.String()+"_"+s.String()] = true
			set[base.String()+"-"+s.String()] = true
		}
	}
	names := fw.SortedKeys(set)
	sort.SliceStable(names, func(i, j int) bool { return len(names[i]) > len(names[j]) })
	return names
}

type searchSetup struct {
	Tag      language.Tag
	Domain   string
	Category string
	Disabled bool
	Exts     []string
}

// candidates are all paths in search order together with the index of the extension.
func (s searchSetup) candidates() (paths []string, ext []int) {
	for i, e := range s.Exts {
		for _, n := range languageNames(s.Tag) {
			add := func(p ...string) {
				paths = append(paths, path.Join(p...))
				ext = append(ext, i)
			}
			d := s.Domain
			if d != "" {
				add(n, s.Category, d+e)
			}
			if s.Disabled {
				continue
			}
			if d != "" {
				add(n, "LC_MESSAGES", d+e)
				add(n, d+e)
				add(d, n+e)
			}
			add(n + e)
			if s.Category != "" {
				add(s.Category, n+e)
			}
			add("LC_MESSAGES", n+e)
		}
	}
	return
}

// recDecoder returns a catalog which tells which decoder decoded which file.
type recDecoder struct {
	name  string
	calls *[]string
	fail  error
}

func (d recDecoder) Decode(lang language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	*d.calls = append(*d.calls, fmt.Sprintf("%s %s %q %s", d.name, lang, domain, data))
	if d.fail != nil {
		return nil, d.fail
	}
	return textCatalog{tag: lang, text: d.name + "|" + lang.String() + "|" + domain + "|" + string(data)}, nil
}

// recDecoderV2 must be used through DecodeReader.
type recDecoderV2 struct{ recDecoder }

func (d recDecoderV2) Decode(language.Tag, string, []byte) (catalog.Catalog, error) {
	return nil, errors.New("Decode of a reader decoder was called")
}

func (d recDecoderV2) DecodeReader(lang language.Tag, domain string, r io.Reader) (catalog.Catalog, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return d.recDecoder.Decode(lang, domain, data)
}

type textCatalog struct {
	tag  language.Tag
	text string
}

func (c textCatalog) Lookup(ctx, id string) (string, error)           { return c.text, nil }
func (c textCatalog) LookupPlural(_, _ string, _ any) (string, error) { return c.text, nil }
func (c textCatalog) Language() language.Tag                          { return c.tag }

// watchFS records reads and the balance of open and close.
type watchFS struct {
	fs.FS
	opened, closed int
	reads          map[string]int
}

func (f *watchFS) Open(name string) (fs.File, error) {
	x, err := f.FS.Open(name)
	if err != nil {
		return nil, err
	}
	f.opened++
	return &watchFile{File: x, fs: f, name: name}, nil
}

type watchFile struct {
	fs.File
	fs   *watchFS
	name string
	done bool
}

func (f *watchFile) Read(p []byte) (int, error) {
	f.fs.reads[f.name]++
	return f.File.Read(p)
}

func (f *watchFile) Close() error {
	if !f.done {
		f.done = true
		f.fs.closed++
	}
	return f.File.Close()
}

func fileFor(ext, p string) string {
	switch {
	case strings.HasSuffix(ext, "po"):
		return fmt.Sprintf("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgid \"where\"\nmsgstr \"po %s\"\n", p)
	case strings.HasSuffix(ext, "json"):
		return fmt.Sprintf("{\"where\": \"json %s\"}", p)
	}
	return p
}

func c08setup(t *fw.T) searchSetup {
	s := searchSetup{Tag: randTag(t, cldrLangs, t.IntN(4*len(cldrLangs)))}
	if t.Chance(3) {
		s.Tag = language.Make(fw.Pick(t, []string{"de", "de-AT", "en-US", "zh", "zh-TW", "zh-Hant-HK", "zh-Hans", "sr-Latn", "sr-Cyrl-ME", "pt-BR", "es-419", "nb", "no", "he", "iw", "id", "fr-CA", "fil", "tl", "ca-ES-valencia", "de-CH-1996", "en-u-nu-arab", "x-private", "und", "cmn", "gsw", "haw", "mn-Cyrl", "az-Arab-IR", "sr-Latn-RS", "mul"}))
	}
	switch t.IntN(8) {
	case 0:
		s.Domain = ""
	case 1:
		s.Domain = fw.Pick(t, []string{"a/b", "my.domain", "Domain", "x y", "LC_MESSAGES", "de", "en", "ü", "helloworld.v2", "...", "a_b-c"})
	case 2:
		s.Domain = fw.Pick(t, languageNames(s.Tag))
	default:
		s.Domain = fw.Pick(t, []string{"default", "django", "messages", "dom"})
	}
	switch t.IntN(4) {
	case 0:
		s.Category = fw.Pick(t, []string{"LC_MESSAGES", "cat", "LC_TIME", "x/y", "de", s.Domain})
	}
	s.Disabled = t.Chance(5)
	return s
}

func c08case(t *fw.T) {
	s := c08setup(t)
	mode := t.IntN(4) // 0: default decoders, else recording decoders
	var calls []string
	var opts []spreak.FsOption
	extFor := []string{".po", ".mo", ".json", "", ".txt", "po", "_x.po", ".PO", ".po.txt", ".jsn"}
	var failing []error
	if mode == 0 {
		s.Exts = []string{".po", ".mo", ".json"}
		if t.Chance(2) {
			// The named decoders in any order
			n := 1 + t.IntN(3)
			s.Exts = nil
			for _, i := range t.Perm(3)[:n] {
				s.Exts = append(s.Exts, []string{".po", ".mo", ".json"}[i])
				opts = append(opts, []func() spreak.FsOption{spreak.WithPoDecoder, spreak.WithMoDecoder, spreak.WithJSONDecoder}[i]())
			}
		}
	} else {
		n := 1 + t.IntN(4)
		for i := 0; i < n; i++ {
			e := fw.Pick(t, extFor)
			if len(s.Exts) > 0 && t.Chance(6) {
				e = s.Exts[0]
			}
			s.Exts = append(s.Exts, e)
			rd := recDecoder{name: fmt.Sprintf("dec%d", i), calls: &calls}
			if t.Chance(8) {
				rd.fail = fmt.Errorf("decoder %d failed: %w", i, fw.Pick(t, []error{errors.New("x"), fs.ErrNotExist, spreak.NewErrNotFound(s.Tag, "x", "y"), fs.ErrInvalid, io.EOF}))
			}
			failing = append(failing, rd.fail)
			if t.Chance(2) {
				opts = append(opts, spreak.WithDecoder(e, rd))
			} else {
				opts = append(opts, spreak.WithDecoder(e, recDecoderV2{rd}))
			}
		}
	}
	paths, exts := s.candidates()
	content := func(p string, e string) []byte {
		if mode != 0 {
			return []byte("content of " + p)
		}
		if e == ".mo" {
			return moWhere("mo " + p)
		}
		return []byte(fileFor(e, p))
	}
	files := map[string][]byte{}
	dirs := map[string]bool{}
	conflict := func(p string) bool { // p is not possible next to the others
		if dirs[p] || p == "." {
			return true
		}
		for q := range files {
			if strings.HasPrefix(p, q+"/") || strings.HasPrefix(q, p+"/") {
				return true
			}
		}
		for q := range dirs {
			if strings.HasPrefix(q, p+"/") {
				return true
			}
		}
		return !fs.ValidPath(p)
	}
	extOf := func(p string) string {
		best := ""
		for _, e := range s.Exts {
			if strings.HasSuffix(p, e) && len(e) >= len(best) {
				best = e
			}
		}
		return best
	}
	put := func(p string) {
		if !conflict(p) {
			files[p] = content(p, extOf(p))
		}
	}
	// Directories named like a file that is searched
	for n := t.IntN(3); n > 0 && len(paths) > 0; n-- {
		p := fw.Pick(t, paths)
		if fs.ValidPath(p) && files[p] == nil && !conflict(p) {
			dirs[p] = true
		}
	}
	for n := t.IntN(4); n > 0 && len(paths) > 0; n-- {
		if t.Chance(4) {
			put(paths[t.IntN(1+len(paths)/4)])
		} else {
			put(fw.Pick(t, paths))
		}
	}
	// Decoys: everything the documented order does not contain
	wanted := map[string]bool{}
	for _, p := range paths {
		wanted[p] = true
	}
	other := s
	for n := t.IntN(5); n > 0; n-- {
		o := other
		switch t.IntN(8) {
		case 0:
			o.Tag = randTag(t, cldrLangs, t.IntN(2*len(cldrLangs)))
		case 1:
			o.Domain = fw.Pick(t, []string{"other", s.Domain + "2", s.Domain + ".bak", strings.ToUpper(s.Domain), "default", "messages"})
		case 2:
			o.Category = fw.Pick(t, []string{"LC_MESSAGES", "cat", "LC_CTYPE"})
		case 3:
			o.Disabled = false
		case 4:
			o.Exts = append([]string{}, fw.Pick(t, []string{".po~", ".mo", ".po", ".json", ".txt", ""}))
		case 5:
			o.Tag = s.Tag.Parent()
		default:
			o.Domain, o.Category = s.Category, s.Domain
		}
		ps, _ := o.candidates()
		if len(ps) == 0 {
			continue
		}
		p := fw.Pick(t, ps)
		switch t.IntN(6) {
		case 0:
			p = path.Join("locale", p)
		case 1:
			p = path.Dir(p) + "/" + strings.ToUpper(path.Base(p))
		case 2:
			p += "~"
		}
		if len(paths) > 0 && t.Chance(3) { // the wanted names in another case
			p = fw.Pick(t, paths)
			e := path.Ext(p)
			switch t.IntN(4) {
			case 0:
				p = strings.ToUpper(strings.TrimSuffix(p, e)) + e
			case 1:
				p = strings.ToLower(strings.TrimSuffix(p, e)) + strings.ToUpper(e)
			default:
				p = strings.ToLower(p)
			}
			t.Count("names in another case", 1)
		}
		if fs.ValidPath(p) && !wanted[p] && !dirs[p] {
			put(p)
		}
	}
	want, wantExt := "", -1
	for i, p := range paths {
		if files[p] != nil && fs.ValidPath(p) {
			want, wantExt = p, exts[i]
			break
		}
	}
	t.Note("tag %s domain %q category %q disabled %v exts %q mode %d\nfiles %q\ndirs %q\nexpected %q (decoder %d)", s.Tag, s.Domain, s.Category, s.Disabled, s.Exts, mode, fw.SortedKeys(files), fw.SortedKeys(dirs), want, wantExt)

	useDir := t.Chance(12)
	for p := range files {
		if len(p) > 200 {
			useDir = false
		}
	}
	var watch *watchFS
	var root string
	if useDir {
		var err error
		root, err = os.MkdirTemp("", "verif-c08-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(root)
		for d := range dirs {
			os.MkdirAll(filepath.Join(root, d), 0o755)
		}
		for p, c := range files {
			os.MkdirAll(filepath.Join(root, path.Dir(p)), 0o755)
			if err := os.WriteFile(filepath.Join(root, p), c, 0o644); err != nil {
				t.Count("unusable directories", 1)
				return
			}
		}
		opts = append(opts, spreak.WithPath(root))
	} else {
		m := fstest.MapFS{}
		for p, c := range files {
			m[p] = &fstest.MapFile{Data: c}
		}
		for d := range dirs {
			m[d] = &fstest.MapFile{Mode: fs.ModeDir | 0o755}
		}
		watch = &watchFS{FS: m, reads: map[string]int{}}
		opts = append(opts, spreak.WithFs(watch))
	}
	def := s.Category == "" && !s.Disabled
	if !def || t.Chance(3) {
		var ro []spreak.ResolverOption
		if s.Category != "" || t.Chance(4) {
			ro = append(ro, spreak.WithCategory(s.Category))
		}
		if s.Disabled {
			ro = append(ro, spreak.WithDisabledSearch())
		}
		t.Shuffle(len(ro), func(i, j int) { ro[i], ro[j] = ro[j], ro[i] })
		r, err := spreak.NewDefaultResolver(ro...)
		if err != nil {
			t.Fail("resolver", "NewDefaultResolver failed: %v", err)
		}
		opts = append(opts, spreak.WithResolver(r))
		// The resolver alone
		e := t.IntN(len(s.Exts))
		wantPath := ""
		for i, p := range paths {
			if exts[i] == e && files[p] != nil && fs.ValidPath(p) {
				wantPath = p
				break
			}
		}
		if watch != nil {
			got, err := r.Resolve(watch, s.Exts[e], s.Tag, s.Domain)
			if wantPath == "" && !errors.Is(err, os.ErrNotExist) {
				t.Err("resolve-missing", "Resolve(%q) of a missing file returned %q, %v", s.Exts[e], got, err)
			}
			if wantPath != "" && (err != nil || got != wantPath) {
				t.Err("resolve", "Resolve(%q) returned %q, %v instead of %q", s.Exts[e], got, err, wantPath)
			}
		}
	}
	// The order of the options is irrelevant except for that of the decoders
	k := t.IntN(len(opts))
	last := opts[len(opts)-1]
	opts = append(append(append([]spreak.FsOption{}, opts[:k]...), last), opts[k:len(opts)-1]...)

	wantText, wantErr := "", error(nil)
	if want != "" {
		if mode == 0 {
			wantText = s.Exts[wantExt][1:] + " " + want
		} else {
			wantText = fmt.Sprintf("dec%d|%s|%s|content of %s", wantExt, s.Tag, s.Domain, want)
			wantErr = failing[wantExt]
		}
	}
	var got string
	var gotErr error
	var viaBundle bool
	if t.Chance(3) && s.Tag != language.Und && s.Tag != language.English {
		viaBundle = true
		b, err := spreak.NewBundle(
			spreak.WithSourceLanguage(language.English),
			spreak.WithFilesystemLoader(s.Domain, opts...),
			spreak.WithRequiredLanguage(s.Tag),
			spreak.WithDefaultDomain(s.Domain),
		)
		gotErr = err
		if err == nil {
			l := spreak.NewLocalizer(b, s.Tag)
			if l.Language() != s.Tag {
				return // the matcher prefers the source language
			}
			got = l.Get("where")
		}
	} else {
		l, err := spreak.NewFilesystemLoader(opts...)
		if err != nil {
			t.Fail("create", "NewFilesystemLoader failed: %v", err)
		}
		cat, err := l.Load(s.Tag, s.Domain)
		gotErr = err
		if err == nil {
			if cat.Language() != s.Tag {
				t.Err("language", "the catalog has the language %s", cat.Language())
			}
			got, err = cat.Lookup("", "where")
			if err != nil {
				t.Fail("lookup", "lookup failed: %v", err)
			}
		}
	}
	switch {
	case want == "":
		var nf *spreak.ErrNotFound
		if !errors.As(gotErr, &nf) || nf.Language != s.Tag {
			t.Fail("missing", "no file exists, but the result was %q, %v", got, gotErr)
		}
		t.Count("nothing found", 1)
	case wantErr != nil:
		if !errors.Is(gotErr, wantErr) {
			t.Fail("decoder-error", "the decoder fails with %v, but the result was %q, %v", wantErr, got, gotErr)
		}
		t.Count("decoder failed", 1)
	default:
		if gotErr != nil {
			t.Fail("found", "the file %s exists, but the result was %v", want, gotErr)
		}
		if got != wantText {
			t.Fail("wrong-file", "used %q instead of %q", got, wantText)
		}
		if mode != 0 && len(calls) != 1 {
			t.Fail("decoder-calls", "decoders were called %q", calls)
		}
		t.Count("found", 1)
	}
	if watch != nil {
		for p := range watch.reads {
			if p != want {
				t.Fail("read-other", "the file %s was read, expected only %q", p, want)
			}
		}
		if watch.opened != watch.closed {
			t.Fail("left-open", "%d files were opened, %d closed", watch.opened, watch.closed)
		}
	} else {
		t.Count("real directory", 1)
	}
	if viaBundle {
		t.Count("through a bundle", 1)
	}
	if len(dirs) > 0 {
		t.Count("directories named like files", 1)
	}
	if len(files) > 1 {
		t.Distinct(s.Tag, s.Domain, s.Category, s.Disabled, s.Exts, fw.SortedKeys(files))
	}
	t.Sample("%s %q -> %q", s.Tag, s.Domain, want)
}

func moWhere(text string) []byte {
	var b bytes.Buffer
	le := func(v ...uint32) {
		for _, x := range v {
			b.Write([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)})
		}
	}
	id := "where"
	le(0x950412de, 0, 1, 28, 36, 0, 44)
	le(uint32(len(id)), 44)
	le(uint32(len(text)), uint32(44+len(id)+1))
	b.WriteString(id + "\x00" + text + "\x00")
	return b.Bytes()
}

// c08sequence uses one loader (and so one resolver) for many languages and domains.
func c08sequence(t *fw.T) {
	base := c08setup(t)
	var calls []string
	var opts []spreak.FsOption
	for i, n := 0, 1+t.IntN(4); i < n; i++ {
		base.Exts = append(base.Exts, []string{".po", ".mo", ".json", "_x.po"}[i])
	}
	t.Shuffle(len(base.Exts), func(i, j int) { base.Exts[i], base.Exts[j] = base.Exts[j], base.Exts[i] })
	for i, e := range base.Exts {
		rd := recDecoder{name: fmt.Sprintf("dec%d", i), calls: &calls}
		if t.Chance(2) {
			opts = append(opts, spreak.WithDecoder(e, rd))
		} else {
			opts = append(opts, spreak.WithDecoder(e, recDecoderV2{rd}))
		}
	}
	var setups []searchSetup
	m := fstest.MapFS{}
	free := func(p string) bool {
		if !fs.ValidPath(p) || p == "." {
			return false
		}
		for q := range m {
			if p == q || strings.HasPrefix(p, q+"/") || strings.HasPrefix(q, p+"/") {
				return false
			}
		}
		return true
	}
	tags := []language.Tag{base.Tag}
	for n := 1 + t.IntN(4); n > 0; n-- {
		switch t.IntN(3) {
		case 0:
			tags = append(tags, base.Tag.Parent())
		case 1:
			tags = append(tags, language.Make(fw.Pick(t, []string{"de", "de-AT", "zh-Hant-HK", "zh-TW", "sr-Latn-RS", "pt-BR", "pt", "en-US", "es-419"})))
		default:
			tags = append(tags, randTag(t, cldrLangs, t.IntN(4*len(cldrLangs))))
		}
	}
	domains := []string{base.Domain, "default", fw.Pick(t, []string{"", "django", "x/y", "de"})}
	for _, tag := range tags {
		for _, d := range domains {
			s := base
			s.Tag, s.Domain = tag, d
			setups = append(setups, s)
			paths, _ := s.candidates()
			for n := t.IntN(3); n > 0 && len(paths) > 0; n-- {
				if p := fw.Pick(t, paths); free(p) {
					m[p] = &fstest.MapFile{Data: []byte("content of " + p)}
				}
			}
		}
	}
	watch := &watchFS{FS: m, reads: map[string]int{}}
	opts = append(opts, spreak.WithFs(watch))
	var ro []spreak.ResolverOption
	if base.Category != "" {
		ro = append(ro, spreak.WithCategory(base.Category))
	}
	if base.Disabled {
		ro = append(ro, spreak.WithDisabledSearch())
	}
	if len(ro) > 0 || t.Chance(2) {
		r, err := spreak.NewDefaultResolver(ro...)
		if err != nil {
			t.Fail("resolver", "NewDefaultResolver failed: %v", err)
		}
		opts = append(opts, spreak.WithResolver(r))
	}
	l, err := spreak.NewFilesystemLoader(opts...)
	if err != nil {
		t.Fail("create", "NewFilesystemLoader failed: %v", err)
	}
	t.Note("category %q disabled %v exts %q tags %v domains %q\nfiles %q", base.Category, base.Disabled, base.Exts, tags, domains, fw.SortedKeys(m))
	history := ""
	last := -1
	for n := 3 * len(setups); n > 0; n-- {
		s := fw.Pick(t, setups)
		paths, exts := s.candidates()
		switch t.IntN(9) {
		case 0, 1: // a new file
			if p := append(paths, "")[t.IntN(len(paths)+1)]; free(p) {
				m[p] = &fstest.MapFile{Data: []byte("content of " + p)}
				history += "; +" + p
				t.Count("files added between loads", 1)
			}
		case 2: // one is removed, and may be replaced by others
			if names := fw.SortedKeys(m); len(names) > 0 {
				p := fw.Pick(t, names)
				delete(m, p)
				history += "; -" + p
			}
		case 3: // the list of names belongs to the caller
			clear(spreak.ExpandLanguage(s.Tag))
		}
		want, ext := "", -1
		for i, p := range paths {
			if m[p] != nil && fs.ValidPath(p) {
				want, ext = p, exts[i]
				break
			}
		}
		history += fmt.Sprintf("; %s %q", s.Tag, s.Domain)
		calls, watch.reads = nil, map[string]int{}
		cat, err := l.Load(s.Tag, s.Domain)
		t.Eval(1)
		if want == "" {
			var nf *spreak.ErrNotFound
			if !errors.As(err, &nf) || nf.Language != s.Tag || cat != nil {
				t.Fail("missing", "after the loads %s: no file exists, but the result was %v, %v", history, cat, err)
			}
			continue
		}
		if err != nil {
			t.Fail("found", "after the loads %s: the file %s exists, but the result was %v", history, want, err)
		}
		wantText := fmt.Sprintf("dec%d|%s|%s|content of %s", ext, s.Tag, s.Domain, want)
		if got, _ := cat.Lookup("", "where"); got != wantText || cat.Language() != s.Tag || len(calls) != 1 {
			t.Fail("wrong-file", "after the loads %s: used %q instead of %q (decoders %q)", history, got, wantText, calls)
		}
		for p := range watch.reads {
			if p != want {
				t.Fail("read-other", "after the loads %s: the file %s was read, expected only %q", history, p, want)
			}
		}
		t.Count("found by a loader used before", 1)
		if last >= 0 && last != ext {
			t.Count("another decoder than before", 1)
		}
		last = ext
		t.Distinct("sequence", s.Tag, s.Domain, want, len(history))
	}
	if watch.opened != watch.closed {
		t.Fail("left-open", "%d files were opened, %d closed", watch.opened, watch.closed)
	}
	t.Sample("%d loads by one loader with %d files", 2*len(setups), len(m))
}

// c08names compares the exported name expansion.
func c08names(t *fw.T) {
	tag := randTag(t, cldrLangs, t.Idx)
	want := languageNames(tag)
	for range 2 {
		got := spreak.ExpandLanguage(tag)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			t.Fail("names", "ExpandLanguage(%s) = %q, expected %q", tag, got, want)
		}
		t.Count("language names", len(got))
		clear(got)
	}
	t.Distinct(tag)
}

// recResolver answers from a table.
type recResolver struct {
	calls   []string
	answers map[string]any
	fsys    fs.FS
}

func (r *recResolver) Resolve(fsys fs.FS, ext string, lang language.Tag, domain string) (string, error) {
	r.calls = append(r.calls, fmt.Sprintf("%s %s %q", ext, lang, domain))
	r.fsys = fsys
	switch x := r.answers[ext].(type) {
	case string:
		return x, nil
	case error:
		return "", x
	}
	return "", fmt.Errorf("no answer: %w", os.ErrNotExist)
}

// c08resolver: a resolver of the application is asked in the order of the decoders.
func c08resolver(t *fw.T) {
	tag := randTag(t, cldrLangs, t.IntN(4*len(cldrLangs)))
	domain := fw.Pick(t, []string{"", "a", "b/c"})
	n := 1 + t.IntN(4)
	var calls []string
	m := fstest.MapFS{}
	r := &recResolver{answers: map[string]any{}}
	watch := &watchFS{FS: m, reads: map[string]int{}}
	opts := []spreak.FsOption{spreak.WithFs(watch), spreak.WithResolver(r)}
	wantCalls := []string{}
	var want string
	var wantErr error
	done := false
	for i := 0; i < n; i++ {
		ext := fmt.Sprintf(".e%d", i)
		opts = append(opts, spreak.WithDecoder(ext, recDecoder{name: ext, calls: &calls}))
		if !done {
			wantCalls = append(wantCalls, fmt.Sprintf("%s %s %q", ext, tag, domain))
		}
		switch t.IntN(5) {
		case 0:
			p := fmt.Sprintf("any/where%d", i)
			m[p] = &fstest.MapFile{Data: []byte(p)}
			r.answers[ext] = p
			if !done {
				want, done = fmt.Sprintf("%s|%s|%s|%s", ext, tag, domain, p), true
			}
		case 1:
			// The resolver names a file that is not there
			r.answers[ext] = fmt.Sprintf("missing%d", i)
		case 2:
			if t.Chance(2) {
				e := fmt.Errorf("resolver error %d", i)
				r.answers[ext] = e
				if !done {
					wantErr, done = e, true
				}
			}
		}
	}
	t.Note("tag %s domain %q answers %v", tag, domain, r.answers)
	l, err := spreak.NewFilesystemLoader(opts...)
	if err != nil {
		t.Fail("create", "NewFilesystemLoader failed: %v", err)
	}
	cat, err := l.Load(tag, domain)
	if fmt.Sprint(r.calls) != fmt.Sprint(wantCalls) {
		t.Fail("resolver-calls", "the resolver was asked %q instead of %q", r.calls, wantCalls)
	}
	if r.fsys != fs.FS(watch) {
		t.Fail("resolver-fs", "the resolver got another file system")
	}
	switch {
	case want != "":
		if err != nil {
			t.Fail("found", "the result was %v", err)
		}
		if got, _ := cat.Lookup("", "where"); got != want {
			t.Fail("wrong-file", "used %q instead of %q", got, want)
		}
	case wantErr != nil:
		if !errors.Is(err, wantErr) {
			t.Fail("resolver-error", "the result was %v instead of %v", err, wantErr)
		}
	default:
		var nf *spreak.ErrNotFound
		if !errors.As(err, &nf) || cat != nil {
			t.Fail("missing", "the result was %v, %v", cat, err)
		}
	}
	if watch.opened != watch.closed {
		t.Fail("left-open", "%d files were opened, %d closed", watch.opened, watch.closed)
	}
	t.Count("own resolver", 1)
	t.Distinct(tag, domain, fmt.Sprint(r.answers))
}

func init() {
	register(&fw.Check{
		ID:   "C08",
		Rule: "File trees with files, directories and decoys around the candidate paths of random tags, domains, categories and decoder orders; the oracle enumerates the documented candidate paths itself and names the one file that has to be used. Non-trivial: trees with at least two files, tags for the name expansion.",
		Gens: []fw.Gen{
			{Name: "trees", Quick: 40000, Thor: 1500000, Run: c08case},
			{Name: "names", Quick: 3000, Thor: 50000, Run: c08names},
			{Name: "resolver", Quick: 4000, Thor: 100000, Run: c08resolver},
			{Name: "sequences", Quick: 4000, Thor: 150000, Run: c08sequence},
			{Name: "options", Quick: 4000, Thor: 100000, Run: c08options},
		},
		MinNonTriv:  5000,
		Need:        []string{"found", "nothing found", "decoder failed", "real directory", "through a bundle", "directories named like files", "own resolver", "another decoder than before", "loader options refused", "loader options accepted", "files of the system", "names in another case"},
		Assumptions: []string{"golang.org/x/text/language supplies base, region and script of a tag"},
	})
}

// fixedResolver resolves everything to one path and records what it was asked for.
type fixedResolver struct {
	path  string
	asked []string
}

func (r *fixedResolver) Resolve(fsys fs.FS, extension string, lang language.Tag, domain string) (string, error) {
	r.asked = append(r.asked, fmt.Sprint(extension, lang, domain))
	p := r.path + extension
	if _, err := fs.Stat(fsys, p); err != nil {
		return "", err
	}
	return p, nil
}

// namedDecoder decodes to a catalog that names the decoder and the file.
type namedDecoder struct{ name string }

type namedCatalog struct {
	tagCatalog
	from string
}

func (d namedDecoder) Decode(lang language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	return &namedCatalog{tagCatalog{lang, domain}, d.name + ":" + string(data)}, nil
}

// c08options: which combinations of options create a loader, and what it uses then.
func c08options(t *fw.T) {
	dir, err := os.MkdirTemp("", "c08-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	exts := []string{".po", ".mo", ".json", ".txt"}
	files := map[string][]string{} // place and path -> extensions
	trees := map[string]fstest.MapFS{"A": {}, "B": {}}
	for _, place := range []string{"A", "B", "path"} {
		for _, stem := range []string{"de", "fixed"} {
			for _, e := range exts {
				if t.Chance(3) {
					continue
				}
				data := []byte(place + "/" + stem + e)
				files[place+"/"+stem] = append(files[place+"/"+stem], e)
				if place == "path" {
					if err := os.WriteFile(dir+"/"+stem+e, data, 0o644); err != nil {
						panic(err)
					}
				} else {
					trees[place][stem+e] = &fstest.MapFile{Data: data}
				}
			}
		}
	}
	cause := errors.New("option failed")
	var opts []spreak.FsOption
	var desc, order, decs []string
	systems, resolvers, stems := []string{}, 0, "de"
	fixed := &fixedResolver{path: "fixed"}
	bad := ""
	for i := t.IntN(6); i >= 0; i-- {
		switch k := t.IntN(20); {
		case k < 3:
			n := fw.Pick(t, []string{"A", "B"})
			opts, desc, systems = append(opts, spreak.WithFs(trees[n])), append(desc, "WithFs "+n), append(systems, n)
		case k < 5:
			if t.Chance(2) {
				opts, desc, systems = append(opts, spreak.WithSystemFs()), append(desc, "WithSystemFs"), append(systems, "root")
			} else {
				opts, desc, systems = append(opts, spreak.WithPath(dir)), append(desc, "WithPath"), append(systems, "path")
			}
		case k < 7:
			opts, desc, stems = append(opts, spreak.WithResolver(fixed)), append(desc, "WithResolver fixed"), "fixed"
			resolvers++
		case k < 9:
			r, err := spreak.NewDefaultResolver()
			if err != nil {
				t.Fail("resolver", "NewDefaultResolver: %v", err)
			}
			opts, desc = append(opts, spreak.WithResolver(r)), append(desc, "WithResolver default")
			resolvers++
		case k == 9:
			opts, desc, bad = append(opts, nil), append(desc, "nil"), "nil"
		case k == 10:
			opts, desc = append(opts, func(*spreak.FilesystemLoader) error { return cause }), append(desc, "failing")
			if bad == "" {
				bad = "cause"
			}
		default:
			e := fw.Pick(t, exts)
			n := "decoder" + itoa(len(decs))
			opts, desc = append(opts, spreak.WithDecoder(e, namedDecoder{n})), append(desc, "WithDecoder "+e)
			order, decs = append(order, e), append(decs, n)
		}
	}
	if len(systems) == 0 && t.Chance(2) {
		opts, desc, systems = append(opts, spreak.WithFs(trees["A"])), append(desc, "WithFs A"), append(systems, "A")
	}
	t.Note("options %v", desc)
	viaBundle := t.Chance(3)
	create := func() (spreak.Loader, error) {
		if !viaBundle {
			l, err := spreak.NewFilesystemLoader(opts...)
			if err != nil && l != nil {
				t.Fail("loader-and-error", "NewFilesystemLoader returns a loader together with the error %v", err)
			}
			return l, err
		}
		_, err := spreak.NewBundle(spreak.WithFilesystemLoader("d", opts...))
		return nil, err
	}
	l, err := create()
	t.Eval(1)
	want := "created"
	if bad != "" || len(systems) != 1 || resolvers > 1 {
		want = "refused"
	}
	t.Distinct("options", strings.Join(desc, ","), files)
	t.Sample("loader options %v: %s", desc, want)
	if want == "refused" {
		if err == nil {
			t.Fail("options-accepted", "a loader with the options %v is created", desc)
		}
		// another option may be wrong before this one
		if bad == "cause" && len(systems) <= 1 && resolvers <= 1 && !errors.Is(err, cause) {
			t.Fail("options-cause", "the creation fails with %v instead of the error of the option", err)
		}
		t.Count("loader options refused", 1)
		return
	}
	if err != nil {
		t.Fail("options-refused", "a loader with the options %v is not created: %v", desc, err)
	}
	t.Count("loader options accepted", 1)
	if systems[0] == "root" {
		if stems != "fixed" {
			return // nothing is looked up by name in the root directory
		}
		// the whole path within the root directory
		fixed.path = strings.TrimPrefix(filepath.ToSlash(dir), "/") + "/fixed"
		systems[0] = "path"
		t.Count("files of the system", 1)
	}
	if viaBundle || len(order) == 0 { // the decoders for real files are the subject of the other cases
		return
	}
	cat, err := l.Load(language.German, "")
	key := systems[0] + "/" + stems
	for i, e := range order {
		if !slices.Contains(files[key], e) {
			continue
		}
		from := decs[i] + ":" + key + e
		c, ok := cat.(*namedCatalog)
		if err != nil || !ok || c.from != from {
			t.Fail("options-load", "Load returns %v, %v; want the catalog %s", cat, err, from)
		}
		return
	}
	var nf *spreak.ErrNotFound
	if cat != nil || !errors.As(err, &nf) {
		t.Fail("options-not-found", "Load returns %v, %v although there is no file", cat, err)
	}
}
