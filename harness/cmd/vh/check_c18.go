package main

import (
	"archive/tar"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"runtime/debug"
	"strings"
	"time"
	"unicode"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/utility"
)

// C18: generated keys work, and only with the right password.

func init() {
	register(&Check{
		ID: "C18", Level: "exploration",
		Rule:  "two or three pairs per case are freshly generated by Keygen for one of {age, pgp} (encryption) or {minisign, pgp} (signatures) with generated passwords (empty, ASCII, blanks, control characters, multi-byte, composed and decomposed, not UTF-8, up to 4000 bytes). Both halves are parsed; strings, headers and streams (0 B to 300 KB, in generated chunk sizes) encrypted or signed with one half are decrypted or verified by the other of the same pair, and by no half of another pair. The private half is parsed with mutations of its password (bytes appended, dropped, flipped, case, normalisation, trimming, truncation at the lengths at which key derivations cut, the empty one, the other pair's): every one has to fail. Non-trivial: a wrong password, a second pair and a non-empty message were tried.",
		Assum: []string{"the algorithms are sound", "passwords which scrypt's HMAC cannot tell apart (trailing NUL bytes; a long password and its hash) are a known finding for age and minisign"},
		Quick: 900, QuickS: 90, Thorough: 20000, ThorS: 700, CPUs: 400, Workers: 6,
		Gen: genC18, Fixed: fixedC18,
		Run: runC18,
	})
}

var c18Chars = []string{"a", "Z", "7", " ", "é", "e\u0301", "ß", "日", "本", "😀", "\u202e", "й", "\t", "\n", "$", "'", "\\", "\"", "-", "\x00", "\xff", "\u212b", "ﬁ", "İ"}

func genPassword(r *Rng) string {
	switch r.N(10) {
	case 0:
		return ""
	case 1:
		return pick(r, "a", " ", "\n", "\x00", "é", "😀", "0", "password", "Password ", "\xff\xfe")
	case 2:
		n := pick(r, 63, 64, 65, 71, 72, 73, 127, 128, 255, 256, 1000, 4000)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + r.N(90))
		}
		return string(b)
	case 3:
		return strings.Repeat(pick(r, c18Chars...), 1+r.N(100))
	case 4:
		return string(r.Bytes(1 + r.N(40)))
	case 5, 6:
		b := make([]byte, 1+r.N(24))
		for i := range b {
			b[i] = byte(32 + r.N(95))
		}
		return string(b)
	}
	var sb strings.Builder
	for k := 1 + r.N(16); k > 0; k-- {
		sb.WriteString(c18Chars[r.N(len(c18Chars))])
	}
	return sb.String()
}

var c18Muts = []string{"append", "appendnul", "appendnl", "dropend", "dropstart", "prefix", "swapcase", "nfd", "empty", "trim", "cut64", "cut72", "cut255", "half", "double", "flip", "flip", "nulcut", "runes", "random", "reverse", "hash", "latin"}

func mutPassword(r *Rng, pw, kind string) string {
	b := []byte(pw)
	switch kind {
	case "append":
		return pw + pick(r, "a", " ", "1", "é")
	case "appendnul":
		return pw + "\x00"
	case "appendnl":
		return pw + pick(r, "\n", "\r\n", "\t")
	case "dropend":
		if len(b) > 0 {
			return string(b[:len(b)-1])
		}
	case "dropstart":
		if len(b) > 0 {
			return string(b[1:])
		}
	case "prefix":
		return pick(r, " ", "a", "\x00") + pw
	case "swapcase":
		return strings.Map(func(x rune) rune {
			if unicode.IsUpper(x) {
				return unicode.ToLower(x)
			}
			return unicode.ToUpper(x)
		}, pw)
	case "nfd":
		if strings.Contains(pw, "é") {
			return strings.ReplaceAll(pw, "é", "e\u0301")
		}
		return strings.ReplaceAll(strings.ReplaceAll(pw, "e\u0301", "é"), "\u212b", "å")
	case "empty":
		return ""
	case "trim":
		return strings.TrimSpace(pw)
	case "cut64", "cut72", "cut255":
		n := map[string]int{"cut64": 64, "cut72": 72, "cut255": 255}[kind]
		if len(b) > n {
			return string(b[:n])
		}
	case "half":
		return string(b[:len(b)/2])
	case "double":
		return pw + pw
	case "flip":
		if len(b) > 0 {
			b[r.N(len(b))] ^= 1 << r.N(8)
			return string(b)
		}
	case "nulcut":
		if i := bytes.IndexByte(b, 0); i >= 0 {
			return string(b[:i])
		}
	case "runes": // lossy conversion to valid UTF-8
		return strings.ToValidUTF8(pw, "\ufffd")
	case "random":
		return genPassword(r)
	case "reverse":
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return string(b)
	case "hash":
		h := sha256.Sum256(b)
		return string(h[:])
	case "latin": // only the low byte of every character
		var o []byte
		for _, x := range pw {
			o = append(o, byte(x))
		}
		return string(o)
	}
	return pw
}

// hmacKey is what scrypt's HMAC keeps of a password.
func hmacKey(pw string) [64]byte {
	var k [64]byte
	if len(pw) > 64 {
		h := sha256.Sum256([]byte(pw))
		copy(k[:], h[:])
	} else {
		copy(k[:], pw)
	}
	return k
}

func scryptEqual(kind, a, b string) bool {
	switch kind {
	case "age":
		return a != "" && b != "" && hmacKey(a) == hmacKey(b)
	case "minisign":
		return hmacKey(a) == hmacKey(b)
	}
	return false
}

func genC18(r *Rng, i int, tier string) *Case {
	c := &Case{}
	nw := 5
	switch k := i % 60; {
	case k == 7:
		c.Mode, nw = "minisign", 2
	case k%10 == 0: // both derive keys slowly
		c.Mode, nw = "age", 2
	case k < 33:
		c.Mode = "pgp"
	default:
		c.Mode = "pgpsig"
	}
	pw := genPassword(r)
	pw2 := genPassword(r)
	if r.P(20) {
		pw2 = pw // the pairs have to differ even with one password
	}
	c.S = []string{hex.EncodeToString([]byte(pw)), hex.EncodeToString([]byte(pw2))}
	if c.Mode[0] == 'p' && r.P(40) {
		c.S = append(c.S, hex.EncodeToString([]byte(genPassword(r))))
	}
	for t := 0; len(c.Extra) < nw && t < 30; t++ {
		m := c18Muts[r.N(len(c18Muts))]
		w := mutPassword(r, pw, m)
		if len(c.Extra) == 0 && pw != "" && r.P(30) {
			m, w = "empty", ""
		}
		if w == pw || scryptEqual(c.Mode, w, pw) {
			continue
		}
		c.Extra = append(c.Extra, Extra{K: m, S: hex.EncodeToString([]byte(w))})
	}
	for k := 0; k < 2+r.N(2); k++ {
		c.Data = append(c.Data, Data{N: pick(r, 0, 1, 2, 31, 64, 511, 4096, 65535, 65536, 65537, 1+r.N(200), 1+r.N(5000), 1+r.N(300000)), Kind: pick(r, "rand", "text", "zero"), Seed: r.U64() % 1e9})
		c.I = append(c.I, int64(pick(r, 0, 1, 7, 100, 512, 4096, 70000)))
	}
	return c
}

// fixedC18 covers every format with the plain passwords.
func fixedC18(tier string) []*Case {
	var out []*Case
	add := func(mode, pw string, wrongs ...string) {
		c := &Case{Mode: mode, S: []string{hex.EncodeToString([]byte(pw)), hex.EncodeToString([]byte("other"))},
			Data: []Data{{N: 1000, Kind: "text", Seed: 5}, {N: 0}}, I: []int64{0, 0}}
		for _, wrong := range wrongs {
			c.Extra = append(c.Extra, Extra{K: "fixed", S: hex.EncodeToString([]byte(wrong))})
		}
		out = append(out, c)
	}
	for _, m := range []string{"minisign", "age", "pgp", "pgpsig"} {
		add(m, "", "x")
		add(m, "pässwörd", "")
	}
	for _, m := range []string{"minisign", "age", "pgp", "pgpsig"} {
		add(m, "correct horse", "correct horse ", " correct horse", "Correct Horse", "correct horse\n")
		add(m, strings.Repeat("x", 80), strings.Repeat("x", 79), strings.Repeat("x", 64), strings.Repeat("x", 72))
		add(m, "e\u0301 ß", "é ß", "e\u0301  ß", "E\u0301 SS", "e ß")
	}
	for _, m := range []string{"age", "pgp", "pgpsig"} {
		add(m, "pässwörd", "passwörd")
		add(m, "correct horse", "correct horse ")
		add(m, strings.Repeat("x", 3000), strings.Repeat("x", 2999))
	}
	return out
}

type c18Pair struct {
	priv, pub []byte
	pw        string
	id, rc    interface{}
}

func runC18(c *Case, r *Result) {
	defer func() {
		if c.Mode == "minisign" {
			debug.FreeOSMemory() // its key derivation takes a GiB
		}
	}()
	sig := c.Mode == "minisign" || c.Mode == "pgpsig"
	format := strings.TrimSuffix(c.Mode, "sig")
	parsePriv := func(b []byte, pw string) (interface{}, error) {
		if sig {
			return keys.ParseSignerIdentity(format, b, pw)
		}
		return keys.ParseIdentity(format, b, pw)
	}
	parsePub := func(b []byte) (interface{}, error) {
		if sig {
			return keys.ParseSignerRecipient(format, b)
		}
		return keys.ParseRecipient(format, b)
	}
	var pairs []c18Pair
	for _, s := range c.S {
		b, err := hex.DecodeString(s)
		if err != nil {
			return
		}
		pipes := config.PipeConfig{}
		if sig {
			pipes.Signature = format
		} else {
			pipes.Encryption = format
		}
		p := c18Pair{pw: string(b)}
		if p.priv, p.pub, err = utility.Keygen(pipes, config.PasswordConfig{Password: p.pw}); err != nil {
			failf("generating a %s pair with password %s: %v", c.Mode, quotePW(p.pw), err)
		}
		priv0, pub0 := bytes.Clone(p.priv), bytes.Clone(p.pub)
		if p.id, err = parsePriv(p.priv, p.pw); err != nil {
			failf("the private half of a %s pair doesn't parse with its password %s: %v", c.Mode, quotePW(p.pw), err)
		}
		if p.rc, err = parsePub(p.pub); err != nil {
			failf("the public half of a %s pair (password %s) doesn't parse: %v", c.Mode, quotePW(p.pw), err)
		}
		if !bytes.Equal(priv0, p.priv) || !bytes.Equal(pub0, p.pub) {
			failf("parsing a %s pair changes its bytes", c.Mode)
		}
		r.Checks += 2
		for _, q := range pairs {
			if bytes.Equal(q.pub, p.pub) || bytes.Equal(q.priv, p.priv) {
				failf("two generated %s pairs are the same", c.Mode)
			}
		}
		pairs = append(pairs, p)
	}
	if len(pairs) == 0 {
		return
	}
	r.cls(c.Mode)
	r.cls("password: " + pwClass(pairs[0].pw))
	// wrong passwords
	wrong := 0
	for i, x := range append(append([]Extra{}, c.Extra...), Extra{K: "other pair's"}) {
		b, err := hex.DecodeString(x.S)
		if err != nil {
			continue
		}
		w := string(b)
		if i == len(c.Extra) {
			if len(pairs) < 2 || format == "minisign" || format == "age" || scryptEqual(format, pairs[1].pw, pairs[0].pw) {
				continue
			}
			w = pairs[1].pw
		}
		if w == pairs[0].pw {
			continue
		}
		note := ""
		if scryptEqual(format, w, pairs[0].pw) {
			note = " (the same key for HMAC)"
		}
		if _, err := parsePriv(pairs[0].priv, w); err == nil {
			failf("the private half of a %s pair with password %s also parses with password %s%s", c.Mode, quotePW(pairs[0].pw), quotePW(w), note)
		}
		wrong++
		r.Checks++
		r.cls("wrong password: " + x.K)
	}
	// and still parses with the right one
	if format != "minisign" && format != "age" {
		id, err := parsePriv(pairs[0].priv, pairs[0].pw)
		if err != nil {
			failf("the private half of a %s pair only parses once: %v", c.Mode, err)
		}
		pairs[0].id = id
	}
	nonEmpty := false
	for di := range c.Data {
		d := c.Data[di].Bytes()
		nonEmpty = nonEmpty || len(d) > 0
		chunk := 0
		if di < len(c.I) {
			chunk = int(c.I[di])
		}
		if chunk > 0 && len(d)/chunk > 20000 {
			chunk = len(d)/20000 + 1
		}
		for i := range pairs {
			if sig {
				c18Sign(c, r, format, pairs, i, d, chunk)
			} else {
				c18Encrypt(c, r, format, pairs, i, d, chunk)
			}
		}
		r.cls("message " + sizeClass(len(d)))
	}
	r.NT = wrong > 0 && len(pairs) > 1 && nonEmpty
}

func quotePW(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%+q... (%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%+q", s)
}

func pwClass(s string) string {
	switch {
	case s == "":
		return "empty"
	case len(s) > 64:
		return "long"
	case strings.ToValidUTF8(s, "") != s:
		return "not UTF-8"
	case strings.IndexFunc(s, func(x rune) bool { return x > 127 }) >= 0:
		return "multi-byte"
	}
	return "ASCII"
}

func sizeClass(n int) string {
	switch {
	case n == 0:
		return "empty"
	case n < 512:
		return "short"
	case n < 65536:
		return "< 64 KiB"
	}
	return ">= 64 KiB"
}

func chunked(w io.Writer, d []byte, n int) error {
	if n <= 0 {
		n = len(d)
	}
	for len(d) > 0 {
		k := min(n, len(d))
		m, err := w.Write(d[:k])
		if err != nil {
			return err
		}
		if m != k {
			return fmt.Errorf("a write of %d bytes accepted %d", k, m)
		}
		d = d[k:]
	}
	return nil
}

func readChunked(r io.Reader, n int) ([]byte, error) {
	if n <= 0 {
		return io.ReadAll(r)
	}
	var out []byte
	b := make([]byte, n)
	for {
		k, err := r.Read(b)
		out = append(out, b[:k]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func c18Header(d []byte) *tar.Header {
	return &tar.Header{Typeflag: tar.TypeReg, Name: "/x" + hex.EncodeToString(d[:min(len(d), 20)]), Size: int64(len(d)), Mode: 0640, Uid: 5, Gid: 6,
		ModTime: time.Unix(1600000000, 123456789).UTC(), Format: tar.FormatPAX, PAXRecords: map[string]string{"STFS.Version": "1"}}
}

func c18Encrypt(c *Case, r *Result, format string, pairs []c18Pair, i int, d []byte, chunk int) {
	p := pairs[i]
	what := fmt.Sprintf("%s with password %s, %d bytes", c.Mode, quotePW(p.pw), len(d))
	ct, err := encryption.EncryptString(string(d), format, p.rc)
	if err != nil {
		failf("encrypting a string (%s): %v", what, err)
	}
	var buf bytes.Buffer
	w, err := encryption.Encrypt(&buf, format, p.rc)
	if err == nil {
		if err = chunked(w, d, chunk); err == nil {
			err = w.Close()
		}
	}
	if err != nil {
		failf("encrypting a stream (%s): %v", what, err)
	}
	h := c18Header(d)
	want := hdrJSON(h)
	if err := encryption.EncryptHeader(h, format, p.rc); err != nil {
		failf("encrypting a header (%s): %v", what, err)
	}
	for j, q := range pairs {
		pt, err := encryption.DecryptString(ct, format, q.id)
		var st []byte
		rd, serr := encryption.Decrypt(bytes.NewReader(buf.Bytes()), format, q.id)
		if serr == nil {
			st, serr = readChunked(rd, chunk)
		}
		hh := *h
		herr := encryption.DecryptHeader(&hh, format, q.id)
		r.Checks += 3
		if i == j {
			if err != nil || pt != string(d) {
				failf("the pair's own private half doesn't decrypt a string (%s): %v, %d bytes", what, err, len(pt))
			}
			if serr != nil || !bytes.Equal(st, d) {
				failf("the pair's own private half doesn't decrypt a stream (%s): %v, %d bytes", what, serr, len(st))
			}
			if herr != nil || hdrJSON(&hh) != want {
				failf("the pair's own private half doesn't decrypt a header (%s): %v", what, herr)
			}
			continue
		}
		if err == nil {
			failf("another pair decrypts a string (%s)", what)
		}
		if serr == nil {
			failf("another pair decrypts a stream (%s)", what)
		}
		if herr == nil {
			failf("another pair decrypts a header (%s)", what)
		}
	}
}

func c18Sign(c *Case, r *Result, format string, pairs []c18Pair, i int, d []byte, chunk int) {
	p := pairs[i]
	what := fmt.Sprintf("%s with password %s, %d bytes", c.Mode, quotePW(p.pw), len(d))
	for _, regular := range []bool{true, false} {
		if !regular && format == "minisign" {
			continue // refused by design
		}
		s1, err := signature.SignString(string(d), regular, format, p.id)
		if err != nil {
			failf("signing a string (%s): %v", what, err)
		}
		rd, fin, err := signature.Sign(bytes.NewReader(d), regular, format, p.id)
		if err != nil {
			failf("signing a stream (%s): %v", what, err)
		}
		through, err := readChunked(rd, chunk)
		if err != nil || !bytes.Equal(through, d) {
			failf("signing a stream changes it (%s): %v", what, err)
		}
		s2, err := fin()
		if err != nil {
			failf("signing a stream (%s): %v", what, err)
		}
		h := c18Header(d)
		want := hdrJSON(h)
		if err := signature.SignHeader(h, regular, format, p.id); err != nil {
			failf("signing a header (%s): %v", what, err)
		}
		for j, q := range pairs {
			for si, s := range []string{s1, s2} {
				verr := signature.VerifyString(string(d), regular, format, q.rc, s)
				var got []byte
				vr, vfin, serr := signature.Verify(bytes.NewReader(d), regular, format, q.rc, s)
				if serr == nil {
					if got, serr = readChunked(vr, chunk); serr == nil {
						serr = vfin()
					}
				}
				r.Checks += 2
				kind := [2]string{"string", "stream"}[si]
				if i == j {
					// minisign's signatures of strings and of streams are of different kinds
					if verr != nil && si == 0 {
						failf("the pair's own public half doesn't verify a signed string (%s): %v", what, verr)
					}
					if si == 1 && (serr != nil || !bytes.Equal(got, d)) {
						failf("the pair's own public half doesn't verify a signed stream (%s): %v, %d bytes", what, serr, len(got))
					}
					continue
				}
				if verr == nil {
					failf("another pair verifies a signed %s as a string (%s)", kind, what)
				}
				if serr == nil {
					failf("another pair verifies a signed %s as a stream (%s)", kind, what)
				}
			}
			hh := *h
			herr := signature.VerifyHeader(&hh, regular, format, q.rc)
			r.Checks++
			if i == j && (herr != nil || hdrJSON(&hh) != want) {
				failf("the pair's own public half doesn't verify a header (%s): %v", what, herr)
			}
			if i != j && herr == nil {
				failf("another pair verifies a header (%s)", what)
			}
		}
	}
}
