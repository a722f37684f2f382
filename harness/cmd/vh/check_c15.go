package main

import (
	"bytes"
	"crypto/sha256"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/spf13/afero"
)

// C15: a read-only filesystem never changes the tape or the index.

var c15Calls = []string{"create", "open", "open", "open", "open", "mkdir", "mkdirall", "remove", "removeall", "rename", "chmod", "chown", "chtimes", "symlink",
	"stat", "lstat", "list", "readlink", "read", "http"}

func init() {
	register(&Check{
		ID: "C15", Level: "exploration",
		Rule:  "a history of 4-15 calls (symlinks in a quarter of the cases) by a writable instance prepares the tape; over it a read-only instance is opened with the index current, missing or stale, and with or without write operations and write cache; tapes may also be cut, blank or missing. It then gets 8-30 calls: every mutating method, OpenFile with every combination of access mode, O_CREATE, O_EXCL, O_TRUNC, O_APPEND and O_SYNC, sessions of reads and writes on the handles, listings, lookups, HTTP requests. After every call the tape bytes and a dump of every table of the index must be unchanged; mutating calls must fail with a permission error; the results of reading calls are those of a writable instance over copies. Non-trivial: at least 4 entries exist, at least 4 mutating calls were refused and 3 reading calls compared.",
		Assum: []string{"a stale index is neither updated nor compared with a writable instance (which would update it)", "reads through a handle opened write-only are not compared", "writes on handles of directories fail, with any error"},
		Quick: 3000, QuickS: 55, Thorough: 60000, ThorS: 700,
		Gen: genC15,
		Run: runC15,
	})
}

func genC15(r *Rng, i int, tier string) *Case {
	c := &Case{Cfg: genCfg(r, 75)}
	p := newPool(r, 35)
	c.Ops = genHistoryPool(p, &c.Cfg, 4+r.N(12), histOpts{arch: true, big: 4, w: map[string]int{"remove": 3, "removeall": 2, "rename": 7, "mkdir": 16}})
	links := r.P(25)
	if links {
		c.Ops = withLinks(r, p, c.Ops)
	}
	st := pick(r, "current", "current", "missing", "missing", "stale")
	be := pick(r, "full", "full", "nowrite", "nowrite")
	tp := pick(r, "whole", "whole", "whole", "whole", "whole", "whole", "cut")
	if r.P(4) {
		tp = pick(r, "none", "empty", "zero")
	}
	if tp != "whole" {
		st = "missing"
	}
	c.S = []string{st, be, tp, map[bool]string{true: "links", false: ""}[links]}
	x := genCut(r)
	x.K = "cut"
	c.Extra = []Extra{x}
	c.I = []int64{int64(r.N(1000))}
	paths := casePaths(c.Ops)
	live := p.live(func(k string, n *MNode) bool { return true })
	pt := func() string {
		s := ""
		switch {
		case len(live) > 0 && r.P(65):
			s = live[r.N(len(live))]
		case len(paths) > 0 && r.P(50):
			s = paths[r.N(len(paths))]
		case r.P(60):
			s = p.fresh()
		default:
			s = p.wild()
		}
		return spell(r, s, 8)
	}
	n := 8 + r.N(23)
	for k := 0; k < n; k++ {
		op := Op{K: c15Calls[r.N(len(c15Calls))], P: pt(), Mode: genMode(r)}
		switch op.K {
		case "open":
			op.Flag = pick(r, os.O_RDONLY, os.O_RDWR, os.O_WRONLY)
			for _, b := range []int{os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_APPEND, os.O_SYNC} {
				if r.P(22) {
					op.Flag |= b
				}
			}
			if r.P(85) {
				op.H = genHandleOps(r, &c.Cfg, 1+r.N(6), os.O_RDWR, 200)
			}
			if r.P(25) {
				op.N = pick(r, -1, 0, 1, 2)
			}
		case "rename", "symlink":
			op.Q = pt()
		case "chown":
			op.UID, op.GID = genID(r), genID(r)
		case "chtimes":
			op.T1, op.T2 = genTime(r), genTime(r)
		case "list":
			op.N = pick(r, -1, 0, 1, 2, 100)
			op.Flag = r.N(2)
		case "http":
			op.UID, op.GID = r.N(300), r.N(300)
			op.Flag = r.N(6)
		}
		c.Ops2 = append(c.Ops2, op)
	}
	return c
}

// dumpDB is the whole content of the index, schema included.
func dumpDB(e *Env) string {
	db := findDB(reflect.ValueOf(e.P), 0)
	if db == nil {
		harnessf("no database handle")
	}
	var b strings.Builder
	rows, err := db.Query("select type, name, coalesce(sql, '') from sqlite_master order by name")
	if err != nil {
		harnessf("dump: %v", err)
	}
	var tables []string
	for rows.Next() {
		var t, n, s string
		if err := rows.Scan(&t, &n, &s); err != nil {
			harnessf("dump: %v", err)
		}
		fmt.Fprintf(&b, "%s %s %s\n", t, n, s)
		if t == "table" {
			tables = append(tables, n)
		}
	}
	rows.Close()
	for _, t := range tables {
		rows, err := db.Query("select * from \"" + t + "\"")
		if err != nil {
			harnessf("dump: %v", err)
		}
		cols, _ := rows.Columns()
		var lines []string
		for rows.Next() {
			v := make([]sql.RawBytes, len(cols))
			a := make([]interface{}, len(cols))
			for i := range v {
				a[i] = &v[i]
			}
			if err := rows.Scan(a...); err != nil {
				harnessf("dump: %v", err)
			}
			l := t
			for i := range v {
				l += fmt.Sprintf("|%s=%q", cols[i], v[i])
			}
			lines = append(lines, l)
		}
		rows.Close()
		sort.Strings(lines)
		b.WriteString(strings.Join(lines, "\n") + "\n")
	}
	return b.String()
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "", ""
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%q became %q", p, q)
		}
	}
	return ""
}

func runC15(c *Case, r *Result) {
	if len(c.S) < 4 {
		return
	}
	st, be, tp := c.S[0], c.S[1], c.S[2]
	withEnv(c, func(e *Env) {
		k := len(c.Ops)
		stale := filepath.Join(e.Dir, "stale.sqlite")
		if st == "stale" {
			k = int(c.I[0]) % (len(c.Ops) + 1)
		}
		for i, op := range c.Ops {
			if st == "stale" && i == k {
				copyFile(e.DB, stale)
			}
			_ = sysOp(e, e.FS, op)
		}
		tape := e.TapeBytes()
		recs, _, _ := ScanTape(tape)
		dir := filepath.Join(e.Dir, "ro")
		tpath := filepath.Join(dir, "tape.tar")
		db := filepath.Join(dir, "idx.sqlite")
		switch tp {
		case "whole":
		case "cut":
			if len(c.Extra) == 0 {
				return
			}
			cut := resolveCut(c.Extra[0], recs, int64(len(tape)))
			if len(recs) == 0 || cut < recs[0].End {
				return
			}
			tape = tape[:cut]
		case "none":
			tape = nil
		case "empty":
			tape = []byte{}
		case "zero":
			tape = make([]byte, 2*blk*(1+len(c.Ops2)%3))
		}
		if err := os.MkdirAll(dir, 0o755); err != nil {
			harnessf("%v", err)
		}
		if tape != nil {
			writeFile(tpath, tape)
		}
		switch st {
		case "current":
			copyFile(e.DB, db)
		case "stale":
			if k == len(c.Ops) {
				copyFile(e.DB, stale)
			}
			copyFile(stale, db)
		}
		ro, err := NewEnv(dir, tpath, c.Cfg, EnvOpts{DB: db, ReadOnly: true, NoWrite: be == "nowrite"})
		if err != nil {
			harnessf("env: %v", err)
		}
		defer ro.Close()
		tapeSame := func(what string) {
			b, err := os.ReadFile(tpath)
			if tape == nil {
				if err == nil {
					failf("%s: the tape was created (%d bytes)", what, len(b))
				}
				return
			}
			if err != nil || sha256.Sum256(b) != sha256.Sum256(tape) {
				failf("%s: the tape changed (%d bytes, were %d)", what, len(b), len(tape))
			}
			r.Checks++
		}
		before := dumpDB(ro)
		currentCall = "Initialize (read-only)"
		ierr := ro.Init()
		tapeSame("Initialize")
		if tp == "none" || tp == "empty" || tp == "zero" {
			if ierr == nil {
				failf("Initialize of a read-only filesystem over a %s tape succeeds", tp)
			}
			if !errors.Is(ierr, os.ErrPermission) {
				failf("Initialize of a read-only filesystem over a %s tape, which has no root: %v, not a permission error", tp, ierr)
			}
			if d := firstDiff(before, dumpDB(ro)); d != "" {
				failf("Initialize of a read-only filesystem over a %s tape: the index changed: %s", tp, d)
			}
			r.cls("tape:" + tp)
			for i, op := range c.Ops2 {
				what := fmt.Sprintf("tape %s, read-only call %d %s", tp, i, opString(op))
				if isMut(op.K) {
					if err := sysOp(ro, ro.FS, op); !errors.Is(err, os.ErrPermission) {
						failf("%s: %v, want a permission error", what, err)
					}
					tapeSame(what)
				}
			}
			r.NT = true
			return
		}
		if ierr != nil {
			failf("Initialize of a read-only filesystem (index %s, tape %s): %v", st, tp, ierr)
		}
		r.cls("index:" + st)
		r.cls("backend:" + be)
		if st != "missing" {
			if d := firstDiff(before, dumpDB(ro)); d != "" {
				failf("Initialize of a read-only filesystem over an existing index changes the index: %s", d)
			}
		}
		before = dumpDB(ro)
		twin := c15Twin(e, c, st, tp, tape)
		if twin != nil {
			defer twin.Close()
		}
		links := c.S[3] == "links"
		live := 0
		refused, compared := 0, 0
		if twin != nil {
			ks := casePaths(append(append([]Op(nil), c.Ops...), c.Ops2...))
			if d := diffText(observe(twin.FS, ks), observe(ro.FS, ks), "writable", "read-only"); d != "" {
				failf("after Initialize: %s", d)
			}
			if d := diffRows(rowsOf(twin), rowsOf(ro), "writable", "read-only", true); d != "" {
				failf("after Initialize: %s", d)
			}
			live = len(rowsOf(ro))
		}
		for i, op := range c.Ops2 {
			what := fmt.Sprintf("read-only (index %s, backend %s) call %d %s", st, be, i, opString(op))
			currentCall = what
			mut, cmp := c15Call(ro, twin, op, links, what, r)
			refused += mut
			compared += cmp
			tapeSame(what)
			if d := firstDiff(before, dumpDB(ro)); d != "" {
				failf("%s: the index changed: %s", what, d)
			}
			r.cls("call:" + op.K)
		}
		// nothing that lies next to the tape either
		ents, err := os.ReadDir(dir)
		if err != nil {
			harnessf("%v", err)
		}
		for _, en := range ents {
			if n := en.Name(); n != "tape.tar" && !strings.HasPrefix(n, "idx.sqlite") && n != "wc" {
				failf("the read-only filesystem left %q behind", n)
			}
		}
		if twin != nil {
			ks := casePaths(append(append([]Op(nil), c.Ops...), c.Ops2...))
			if d := diffText(observe(twin.FS, ks), observe(ro.FS, ks), "writable", "read-only"); d != "" {
				failf("after all calls: %s", d)
			}
		}
		r.NT = live >= 4 && refused >= 4 && (compared >= 3 || twin == nil)
	})
}

// c15Twin is a writable instance over copies of the same data; nil where it would show something else.
func c15Twin(e *Env, c *Case, st, tp string, tape []byte) *Env {
	if st == "stale" {
		return nil
	}
	dir := filepath.Join(e.Dir, "twin")
	tpath := filepath.Join(dir, "tape.tar")
	writeFile(tpath, tape)
	db := filepath.Join(dir, "idx.sqlite")
	if st == "current" {
		copyFile(e.DB, db)
	}
	n, err := NewEnv(dir, tpath, c.Cfg, EnvOpts{DB: db})
	if err != nil {
		harnessf("env: %v", err)
	}
	if tp == "cut" {
		_ = n.Index(0, 0, true, 0)
	} else if err := n.Init(); err != nil {
		failf("Initialize of a writable filesystem over the same data: %v", err)
	}
	return n
}

func isMut(k string) bool {
	switch k {
	case "create", "mkdir", "mkdirall", "remove", "removeall", "rename", "chmod", "chown", "chtimes", "symlink":
		return true
	}
	return false
}

func c15Call(ro, twin *Env, op Op, links bool, what string, r *Result) (mut, cmp int) {
	if isMut(op.K) {
		err := sysOp(ro, ro.FS, op)
		r.Checks++
		if err == nil {
			failf("%s: succeeds on a read-only filesystem", what)
		}
		if !errors.Is(err, os.ErrPermission) {
			failf("%s: fails with %v, not with a permission error", what, err)
		}
		return 1, 0
	}
	switch op.K {
	case "open":
		return c15Open(ro, twin, op, links, what, r)
	case "stat", "lstat", "readlink", "read", "list", "http":
		a := c15Read(ro.FS, op)
		if twin == nil {
			return 0, 0
		}
		b := c15Read(twin.FS, op)
		r.Checks++
		if a != b {
			failf("%s: the read-only filesystem returns %s, a writable one over the same data %s", what, a, b)
		}
		return 0, 1
	}
	harnessf("unknown call %q", op.K)
	return
}

func errClass(err error) string {
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, os.ErrNotExist):
		return "not exist"
	case errors.Is(err, os.ErrPermission):
		return "permission"
	}
	return "error"
}

func c15Read(fs afero.Fs, op Op) string {
	switch op.K {
	case "stat":
		fi, err := fs.Stat(op.P)
		return infoText(fi, err) + " " + errClass(err)
	case "lstat":
		fi, _, err := fs.(afero.Lstater).LstatIfPossible(op.P)
		return infoText(fi, err) + " " + errClass(err)
	case "readlink":
		s, err := fs.(afero.LinkReader).ReadlinkIfPossible(op.P)
		return fmt.Sprintf("%q %s", s, errClass(err))
	case "read":
		b, err := ReadAll(fs, op.P)
		return fmt.Sprintf("%s err=%v", brief(b), err != nil)
	case "list":
		f, err := fs.Open(op.P)
		if err != nil {
			return "open " + errClass(err)
		}
		defer f.Close()
		var l []string
		if op.Flag == 0 {
			is, err := f.Readdir(op.N)
			for _, i := range is {
				l = append(l, infoText(i, nil))
			}
			sort.Strings(l)
			return fmt.Sprintf("%d %v", len(l), errClass(err)) + limited(op.N, l)
		}
		l, err = f.Readdirnames(op.N)
		sort.Strings(l)
		return fmt.Sprintf("%d %v", len(l), errClass(err)) + limited(op.N, l)
	case "http":
		h := http.FileServer(afero.NewHttpFs(fs))
		m := pick6(op.Flag)
		u := &url.URL{Path: path.Join("/", op.P)}
		rq := httptest.NewRequest(m, "http://x/", nil)
		rq.URL = u
		if op.Flag == 1 {
			rq.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", op.UID, op.UID+op.GID))
		}
		w := httptest.NewRecorder()
		h.ServeHTTP(w, rq)
		return fmt.Sprintf("%s %d %s %q", m, w.Code, brief(w.Body.Bytes()), w.Header().Get("Content-Range"))
	}
	return ""
}

// limited: which entries a bounded listing returns is not determined.
func limited(n int, l []string) string {
	if n > 0 {
		return ""
	}
	return strings.Join(l, " | ")
}

func pick6(i int) string {
	return []string{"GET", "GET", "HEAD", "POST", "DELETE", "GET"}[i%6]
}

func c15Open(ro, twin *Env, op Op, links bool, what string, r *Result) (mut, cmp int) {
	fi, serr := ro.FS.Stat(op.P)
	exists, isDir := serr == nil, serr == nil && fi.IsDir()
	f, err := ro.FS.OpenFile(op.P, op.Flag, os.FileMode(op.Mode))
	r.Checks++
	// would it change something?
	if op.Flag&os.O_CREATE != 0 && !exists || op.Flag&os.O_TRUNC != 0 && exists && !isDir {
		if err == nil {
			_ = f.Close()
			failf("%s: opening succeeds on a read-only filesystem although it creates or truncates (exists: %v)", what, exists)
		}
		// several things are wrong with an exclusive creation of what exists
		if !errors.Is(err, os.ErrPermission) && !(op.Flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL && exists) {
			failf("%s: fails with %v, not with a permission error", what, err)
		}
		return 1, 0
	}
	if err != nil {
		acc := op.Flag & 3
		plain := op.Flag&(os.O_CREATE|os.O_TRUNC|os.O_EXCL) == 0
		// a caller who asked for write access may be refused, a reader may not
		if exists && acc == os.O_RDONLY && plain && !links {
			failf("%s: opening for reading fails: %v", what, err)
		}
		if twin != nil && acc == os.O_RDONLY && plain {
			_, terr := twin.FS.OpenFile(op.P, op.Flag, os.FileMode(op.Mode))
			if errClass(terr) != errClass(err) {
				failf("%s: fails with %v, a writable filesystem with %v", what, err, terr)
			}
		}
		return 0, 0
	}
	defer func() {
		if f != nil {
			_ = f.Close()
		}
	}()
	if !exists {
		failf("%s: opening something which does not exist succeeds", what)
	}
	var tf afero.File
	if twin != nil {
		fl := os.O_RDONLY
		if tf, err = twin.FS.OpenFile(op.P, fl, 0); err != nil {
			failf("%s: a writable filesystem cannot open it: %v", what, err)
		}
		defer func() { _ = tf.Close() }()
	}
	for j, h := range op.H {
		hw := fmt.Sprintf("%s: handle call %d %s", what, j, describeHOp(h))
		currentCall = hw
		switch h.K {
		case "write", "writestr", "writeat", "trunc":
			err := blindHandle(f, h)
			r.Checks++
			if h.K != "trunc" && h.Data.N == 0 {
				continue
			}
			mut++
			if err == nil {
				failf("%s: succeeds on a read-only filesystem", hw)
			}
			if !isDir && !errors.Is(err, os.ErrPermission) && !(h.Off < 0) {
				failf("%s: fails with %v, not with a permission error", hw, err)
			}
		case "sync":
			if err := f.Sync(); err != nil && !isDir && !errors.Is(err, os.ErrPermission) {
				failf("%s: %v", hw, err)
			}
		default:
			a := c15Handle(f, h)
			if twin == nil || op.Flag&3 == os.O_WRONLY {
				continue
			}
			b := c15Handle(tf, h)
			cmp++
			r.Checks++
			if a != b {
				failf("%s: the read-only filesystem returns %s, a writable one %s", hw, a, b)
			}
		}
	}
	if isDir && op.N != 0 && twin != nil {
		a, aerr := f.Readdirnames(-1)
		b, berr := tf.Readdirnames(-1)
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, "|") != strings.Join(b, "|") || errClass(aerr) != errClass(berr) {
			failf("%s: lists %q (%v), a writable filesystem %q (%v)", what, a, aerr, b, berr)
		}
	}
	currentCall = what + ": close"
	err = f.Close()
	f = nil
	if err != nil {
		failf("%s: close: %v", what, err)
	}
	return mut, cmp
}

// c15Handle performs a reading handle call and describes everything it returned.
func c15Handle(f afero.File, o HOp) string {
	switch o.K {
	case "read":
		b := make([]byte, o.N)
		n, err := io.ReadFull(f, b)
		if n < 0 || n > len(b) {
			return fmt.Sprintf("count %d", n)
		}
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
		return fmt.Sprintf("%s %s", brief(b[:n]), errClass(err))
	case "readat":
		b := bytes.Repeat([]byte{0xfe}, o.N)
		n, err := f.ReadAt(b, o.Off)
		if n < 0 || n > len(b) {
			return fmt.Sprintf("count %d", n)
		}
		return fmt.Sprintf("%s %s", brief(b[:n]), errClass(err))
	case "seek":
		n, err := f.Seek(o.Off, o.Wh)
		return fmt.Sprintf("%d %s", n, errClass(err))
	case "stat":
		fi, err := f.Stat()
		return infoText(fi, err)
	}
	harnessf("unknown handle call %q", o.K)
	return ""
}
