package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"time"
)

// Cfg is one pipeline configuration.
type Cfg struct {
	RS     int    `json:"rs"`               // record size in blocks
	Comp   string `json:"comp,omitempty"`   // compression format
	Level  string `json:"level,omitempty"`  // compression level
	Enc    string `json:"enc,omitempty"`    // encryption format
	Sig    string `json:"sig,omitempty"`    // signature format
	WCache string `json:"wcache,omitempty"` // write cache type
	WPR    bool   `json:"wpr,omitempty"`    // write permission implies read permission
	Drv    string `json:"drv,omitempty"`    // "tape": a simulated tape drive instead of a regular file
}

// Data describes file content.
type Data struct {
	N    int    `json:"n"`
	Kind string `json:"k,omitempty"`
	Seed uint64 `json:"s,omitempty"`
}

// HOp is an operation on an open handle.
type HOp struct {
	K    string `json:"k"` // read readat seek write writeat writestr trunc sync stat do
	N    int    `json:"n,omitempty"`
	Off  int64  `json:"o,omitempty"`
	Wh   int    `json:"w,omitempty"`
	Data *Data  `json:"d,omitempty"`
	Op   *Op    `json:"op,omitempty"` // do: another call while the handle is open
}

// Item is one member of an archive / update call.
type Item struct {
	Path string `json:"p"`
	Dir  bool   `json:"dir,omitempty"`
	Link string `json:"link,omitempty"`
	Mode uint32 `json:"m,omitempty"`
	UID  int    `json:"u,omitempty"`
	GID  int    `json:"g,omitempty"`
	T    int64  `json:"t,omitempty"`
	Data *Data  `json:"d,omitempty"`

	// what the source says beyond that, if anything
	Sys   bool   `json:"sys,omitempty"`
	Uname string `json:"un,omitempty"`
	Gname string `json:"gn,omitempty"`
	AT    int64  `json:"at,omitempty"`
	CT    int64  `json:"ct,omitempty"`
	Pax   string `json:"pax,omitempty"` // value of an extended attribute
}

// Op is one call.
type Op struct {
	K    string `json:"k"`
	P    string `json:"p,omitempty"`
	Q    string `json:"q,omitempty"`
	Flag int    `json:"f,omitempty"`
	Mode uint32 `json:"m,omitempty"`
	UID  int    `json:"u,omitempty"`
	GID  int    `json:"g,omitempty"`
	T1   int64  `json:"t1,omitempty"`
	T2   int64  `json:"t2,omitempty"`
	N    int    `json:"n,omitempty"`
	H    []HOp  `json:"h,omitempty"`
	It   []Item `json:"it,omitempty"`
}

// Case is one generated case. It is pure data; running it uses no other randomness.
type Case struct {
	Prop  string   `json:"prop"`
	Idx   int      `json:"idx"`
	Cfg   Cfg      `json:"cfg"`
	Ops   []Op     `json:"ops,omitempty"`
	Ops2  []Op     `json:"ops2,omitempty"`
	Cli   [][]Op   `json:"cli,omitempty"`
	Mode  string   `json:"mode,omitempty"`
	I     []int64  `json:"i,omitempty"`
	S     []string `json:"s,omitempty"`
	Data  []Data   `json:"data,omitempty"`
	Extra []Extra  `json:"x,omitempty"`
}

// Extra is a property specific element that the shrinker may drop.
type Extra struct {
	K string  `json:"k,omitempty"`
	A int64   `json:"a,omitempty"`
	B int64   `json:"b,omitempty"`
	S string  `json:"s,omitempty"`
	D *Data   `json:"d,omitempty"`
	T int64   `json:"t,omitempty"`
	I []int64 `json:"i,omitempty"`
}

func (c *Case) JSON() string { b, _ := json.Marshal(c); return string(b) }

func (c *Case) Hash() uint64 {
	d := *c
	d.Idx = 0
	b, _ := json.Marshal(&d)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Result is the verdict on one case.
type Result struct {
	V      string         `json:"v"` // ok | violation | error
	Msg    string         `json:"msg,omitempty"`
	NT     bool           `json:"nt,omitempty"` // non-trivial by the check's rule
	Cls    map[string]int `json:"cls,omitempty"`
	Checks int            `json:"checks,omitempty"` // oracle evaluations made in this case
	Known  []string       `json:"known,omitempty"`  // known findings seen
}

func (r *Result) cls(k string) {
	if r.Cls == nil {
		r.Cls = map[string]int{}
	}
	r.Cls[k]++
}

type violation struct{ msg string }

func failf(format string, a ...interface{}) { panic(violation{fmt.Sprintf(format, a...)}) }

type harnessError struct{ msg string }

func harnessf(format string, a ...interface{}) { panic(harnessError{fmt.Sprintf(format, a...)}) }

func (d *Data) Bytes() []byte {
	if d == nil || d.N <= 0 {
		return []byte{}
	}
	r := NewRng(d.Seed, 77)
	switch d.Kind {
	case "zero":
		return make([]byte, d.N)
	case "text":
		words := []string{"lorem ", "ipsum ", "dolor ", "sit ", "amet\n", "stfs ", "tape "}
		var b bytes.Buffer
		for b.Len() < d.N {
			b.WriteString(words[r.N(len(words))])
		}
		return b.Bytes()[:d.N]
	case "mark": // one high-entropy string, again and again
		p := r.Bytes(24)
		b := make([]byte, d.N)
		for i := range b {
			b[i] = p[i%len(p)]
		}
		return b
	case "magic": // begins like an encoded stream
		m := [][]byte{{0x1f, 0x8b, 8, 0}, {4, 0x22, 0x4d, 0x18}, {0x28, 0xb5, 0x2f, 0xfd}, []byte("BZh9"), []byte("age-encryption.org/v1\n"), []byte("-----BEGIN PGP MESSAGE-----\n"), []byte("untrusted comment: \n")}
		b := r.Bytes(d.N)
		copy(b, m[r.N(len(m))])
		return b
	case "rep":
		p := r.Bytes(1 + r.N(7))
		b := make([]byte, d.N)
		for i := range b {
			b[i] = p[i%len(p)]
		}
		return b
	case "tar": // looks like a tape: valid headers, zero blocks
		var b bytes.Buffer
		for b.Len() < d.N {
			tw := tar.NewWriter(&b)
			n := r.N(700)
			_ = tw.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: fmt.Sprintf("/evil%d", r.N(5)), Size: int64(n), Mode: 0600, ModTime: time.Unix(int64(r.N(1<<30)), 0), Format: tar.FormatPAX})
			_, _ = tw.Write(r.Bytes(n))
			_ = tw.WriteHeader(&tar.Header{Typeflag: tar.TypeDir, Name: "/evildir", Mode: 0700, ModTime: time.Unix(0, 0), Format: tar.FormatPAX, PAXRecords: map[string]string{"STFS.Version": "1", "STFS.Action": "DELETE"}})
			_ = tw.Close()
		}
		return b.Bytes()[:d.N]
	default:
		return r.Bytes(d.N)
	}
}
