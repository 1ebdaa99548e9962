package main

// C22: zk artefacts (proving key, verification key, witness program) and the
// encodings of proofs and public signals.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-circom-prover-verifier/parsers"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
)

func init() {
	rules["C22"] = "a case is a history of loads, downloads, getters and hash calculations by several loaders (right, wrong, malformed hashes; every key format; caching on and off) over one directory, while the harness damages files and the web server fails requests in every way; or goroutines or processes loading at once, processes killed in the middle of a download; or encodings of random and boundary proofs and signals; non-trivial when a file was downloaded, refused or damaged"
	assumptions["C22"] = []string{"the files do not change between the two moments one call reads them", "go-circom-prover-verifier's parsers are right about intact files"}
	reg(Part{Prop: "C22", Name: "history", Quick: 2500, Thorough: 40000, Run: c22History,
		Need: []string{"served", "intact loaded", "refused damaged", "refused wrong hash", "failed downloads", "recovered", "format json", "format bin", "format go.bin", "content compared", "hashes calculated", "insecure downloads"}})
	reg(Part{Prop: "C22", Name: "concurrent", Race: true, Quick: 48, Thorough: 600, Run: c22Conc,
		Need: []string{"loads", "downloaded once", "failed then recovered"}})
	reg(Part{Prop: "C22", Name: "processes", Quick: 40, Thorough: 400, Run: c22Procs,
		Need: []string{"processes", "killed while downloading", "recovered after kill", "downloaded once"}})
	reg(Part{Prop: "C22", Name: "codec", Quick: 400, Thorough: 8000, Run: c22Codec,
		Need: []string{"signals", "proofs", "points on curve", "inputs", "hashes printed"}})
}

// artefacts of two circuits in all formats.
type c22Art struct {
	content map[string][]byte // by base name
	pk      map[string]string // fingerprint of the parsed proving key by base name
	vk      string
}

var (
	c22Once sync.Once
	c22Arts [2]*c22Art
)

var c22Formats = []zkutils.ProvingKeyFormat{zkutils.ProvingKeyFormatJSON, zkutils.ProvingKeyFormatBin, zkutils.ProvingKeyFormatGoBin}

// sumMu: bn256's Marshal changes the representation of the point.
var sumMu sync.Mutex

func pkSum(pk *zktypes.Pk) string {
	sumMu.Lock()
	defer sumMu.Unlock()
	h := sha256.New()
	fmt.Fprintf(h, "%d %d %d %d %d %d %d %d %d ", pk.NVars, pk.NPublic, pk.DomainSize, len(pk.A), len(pk.B1), len(pk.B2), len(pk.C), len(pk.PolsA), len(pk.HExps))
	for _, l := range [][]*bn256.G1{{pk.VkAlpha1, pk.VkBeta1, pk.VkDelta1}, pk.A, pk.B1, pk.C, pk.HExps} {
		for _, p := range l {
			h.Write(p.Marshal())
		}
	}
	for _, l := range [][]*bn256.G2{{pk.VkBeta2, pk.VkDelta2}, pk.B2} {
		for _, p := range l {
			h.Write(p.Marshal())
		}
	}
	for _, l := range [][]map[int]*big.Int{pk.PolsA, pk.PolsB} {
		for _, m := range l {
			fmt.Fprintf(h, "%v ", m) // printed in key order
		}
	}
	return hex.EncodeToString(h.Sum(nil))
}

func vkSum(vk *zktypes.Vk) string {
	sumMu.Lock()
	defer sumMu.Unlock()
	h := sha256.New()
	h.Write(vk.Alpha.Marshal())
	h.Write(vk.Beta.Marshal())
	h.Write(vk.Gamma.Marshal())
	h.Write(vk.Delta.Marshal())
	for _, p := range vk.IC {
		h.Write(p.Marshal())
	}
	return hex.EncodeToString(h.Sum(nil))
}

// pkJSON and pkBin write a proving key in the formats of snarkjs.
func pkJSON(pk *zktypes.Pk) []byte {
	l1 := func(ps []*bn256.G1) (r [][]string) {
		for _, p := range ps {
			r = append(r, g1Str(p))
		}
		return
	}
	var l2 [][][]string
	for _, p := range pk.B2 {
		l2 = append(l2, g2Str(p))
	}
	pols := func(ms []map[int]*big.Int) (r []map[string]string) {
		for _, m := range ms {
			x := map[string]string{}
			for k, v := range m {
				x[fmt.Sprint(k)] = v.String()
			}
			r = append(r, x)
		}
		return
	}
	b, err := json.Marshal(parsers.PkString{A: l1(pk.A), B1: l1(pk.B1), B2: l2, C: l1(pk.C), NVars: pk.NVars, NPublic: pk.NPublic,
		VkAlpha1: g1Str(pk.VkAlpha1), VkBeta1: g1Str(pk.VkBeta1), VkDelta1: g1Str(pk.VkDelta1), VkBeta2: g2Str(pk.VkBeta2), VkDelta2: g2Str(pk.VkDelta2),
		HExps: l1(pk.HExps), DomainSize: pk.DomainSize, PolsA: pols(pk.PolsA), PolsB: pols(pk.PolsB)})
	if err != nil {
		panic(err)
	}
	return b
}

func pkBin(pk *zktypes.Pk) []byte {
	mont := func(x, q *big.Int) []byte {
		y := new(big.Int).Mod(new(big.Int).Lsh(x, 256), q)
		b := bigLE(y)
		return b[:]
	}
	e1 := func(p *bn256.G1) []byte {
		b := p.Marshal()
		return append(mont(new(big.Int).SetBytes(b[:32]), zktypes.Q), mont(new(big.Int).SetBytes(b[32:]), zktypes.Q)...)
	}
	e2 := func(p *bn256.G2) (r []byte) {
		b := p.Marshal()
		for _, i := range []int{1, 0, 3, 2} {
			r = append(r, mont(new(big.Int).SetBytes(b[i*32:i*32+32]), zktypes.Q)...)
		}
		return
	}
	u := func(n int) []byte {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], uint32(n))
		return b[:]
	}
	pols := func(ms []map[int]*big.Int) (r []byte) {
		for _, m := range ms {
			r = append(r, u(len(m))...)
			var ks []int
			for k := range m {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				r = append(append(r, u(k)...), mont(m[k], zktypes.R)...)
			}
		}
		return
	}
	l1 := func(ps []*bn256.G1) (r []byte) {
		for _, p := range ps {
			r = append(r, e1(p)...)
		}
		return
	}
	var b2 []byte
	for _, p := range pk.B2 {
		b2 = append(b2, e2(p)...)
	}
	head := append(append(append(append(e1(pk.VkAlpha1), e1(pk.VkBeta1)...), e1(pk.VkDelta1)...), e2(pk.VkBeta2)...), e2(pk.VkDelta2)...)
	secs := [][]byte{pols(pk.PolsA), pols(pk.PolsB), l1(pk.A), l1(pk.B1), b2, l1(pk.C[pk.NPublic+1:]), l1(pk.HExps[:pk.DomainSize])}
	out := append(append(u(pk.NVars), u(pk.NPublic)...), u(pk.DomainSize)...)
	o := 40 + len(head)
	for _, s := range secs {
		out = append(out, u(o)...)
		o += len(s)
	}
	out = append(out, head...)
	for _, s := range secs {
		out = append(out, s...)
	}
	return out
}

func c22Init() {
	c22Once.Do(func() {
		for i, s := range []string{"c22a", "c22b"} {
			w := append([]byte{}, wasmIdenState...)
			if i == 1 {
				w = append([]byte{}, wasmCredential...)
			}
			z := zkSetup(s, 1+i, w)
			short := *z.pk
			short.HExps = short.HExps[:short.DomainSize]
			c22Arts[i] = &c22Art{
				content: map[string][]byte{"proving_key.json": pkJSON(z.pk), "proving_key.bin": pkBin(z.pk), "proving_key.go.bin": z.pkB,
					"verification_key.json": z.vkB, "circuit.wasm": z.wasm},
				pk: map[string]string{"proving_key.json": pkSum(z.pk), "proving_key.bin": pkSum(&short), "proving_key.go.bin": pkSum(z.pk)},
				vk: vkSum(z.vk),
			}
		}
	})
}

// c22Srv serves files with scripted faults.
type c22Srv struct {
	mu     sync.Mutex
	url    string
	srv    *http.Server
	good   map[string][]byte
	script map[string][]string // next behaviours by file; afterwards "ok"
	gets   map[string]int
	stall  chan struct{} // closed to end stalled answers
	half   chan string   // a stalled answer has sent its first half
}

var c22Faults = []string{"404", "500", "403", "503", "204", "flip", "half-length", "half-chunked", "abort", "close", "longer", "other", "empty", "garbage-http", "early"}

func newC22Srv(c *C, good map[string][]byte) *c22Srv {
	s := &c22Srv{good: good, script: map[string][]string{}, gets: map[string]int{}, stall: make(chan struct{}), half: make(chan string, 100)}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	c.Must(err, "listen")
	s.url = "http://" + l.Addr().String()
	s.srv = &http.Server{Handler: s}
	go s.srv.Serve(l)
	return s
}

func (s *c22Srv) close() { s.srv.Close() }

func (s *c22Srv) next(name string) string {
	if q := s.script[name]; len(q) > 0 {
		return q[0]
	}
	return "ok"
}

// served is the content a behaviour delivers, and whether it is delivered as a complete success.
func (s *c22Srv) served(name, how string) ([]byte, bool) {
	b := s.good[name]
	switch how {
	case "ok":
		return b, b != nil
	case "flip":
		x := append([]byte{}, b...)
		if len(x) > 0 {
			x[len(x)/3] ^= 0x10
		}
		return x, true
	case "half-chunked":
		return b[:len(b)/2], true
	case "longer":
		return append(append([]byte{}, b...), '\n'), true
	case "empty", "204":
		return []byte{}, true
	case "other":
		for _, a := range c22Arts {
			if x := a.content[name]; !bytes.Equal(x, b) {
				return x, true
			}
		}
	}
	return nil, false
}

func (s *c22Srv) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	name := strings.TrimPrefix(r.URL.Path, "/")
	s.mu.Lock()
	s.gets[name]++
	how := s.next(name)
	if len(s.script[name]) > 0 {
		s.script[name] = s.script[name][1:]
	}
	b, known := s.good[name]
	x, full := s.served(name, how)
	s.mu.Unlock()
	if !known {
		http.NotFound(w, r)
		return
	}
	hijack := func(f func(net.Conn)) {
		cn, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			f(cn)
			cn.Close()
		}
	}
	switch how {
	case "404", "500", "403", "503":
		var n int
		fmt.Sscan(how, &n)
		w.WriteHeader(n)
		w.Write(b) // even with the right content
	case "204":
		w.WriteHeader(204)
	case "half-length":
		hijack(func(cn net.Conn) {
			fmt.Fprintf(cn, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(b))
			cn.Write(b[:len(b)/2])
		})
	case "half-chunked":
		w.Write(x[:len(x)/2])
		w.(http.Flusher).Flush()
		w.Write(x[len(x)/2:])
	case "abort":
		w.Write(b[:len(b)*3/4])
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	case "close":
		hijack(func(net.Conn) {})
	case "early":
		hijack(func(cn net.Conn) { fmt.Fprintf(cn, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(b)) })
	case "garbage-http":
		hijack(func(cn net.Conn) { fmt.Fprintf(cn, "hello\r\n\r\n") })
	case "stall":
		w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		w.Write(b[:len(b)/2])
		w.(http.Flusher).Flush()
		s.half <- name
		<-s.stall
		w.Write(b[len(b)/2:])
	case "slow":
		w.Write(b[:len(b)/2])
		w.(http.Flusher).Flush()
		time.Sleep(30 * time.Millisecond)
		w.Write(b[len(b)/2:])
	default:
		if full {
			w.Write(x)
		}
	}
}

// c22Obj is one loader.
type c22Obj struct {
	z      *zkutils.ZkFiles
	desc   string
	names  [3]string // proving key, verification key, program
	want   [3][]byte // the content its hashes name; nil: none
	cache  bool
	bad    bool // unknown format
	touch  [3]bool
	pkSum  map[string]string
	art    *c22Art
	format zkutils.ProvingKeyFormat
}

func newC22Obj(c *C, url, dir string) *c22Obj {
	o := &c22Obj{art: c22Arts[c.R.Intn(4)/3], cache: c.R.Intn(2) == 0}
	o.format = c22Formats[c.R.Intn(3)]
	o.names = [3]string{"proving_key." + string(o.format), "verification_key.json", "circuit.wasm"}
	var hs [3]string
	for i, n := range o.names {
		h := hexSum(o.art.content[n])
		o.want[i] = o.art.content[n]
		switch c.R.Intn(14) {
		case 0:
			x := []byte(h)
			k := c.R.Intn(len(x))
			x[k] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", x[k])+1+c.R.Intn(15))%16]
			h, o.want[i] = string(x), nil
		case 1:
			h, o.want[i] = []string{"", h[:len(h)-2], h + "00", h[2:], h[:8], "zz" + h[2:], h[:63], hexSum(nil) + hexSum(nil), "0x" + h}[c.R.Intn(9)], nil
		case 2:
			h = strings.ToUpper(h)
		}
		hs[i] = h
	}
	o.z = zkutils.NewZkFiles(url, dir, o.format, zkutils.ZkFilesHashes{ProvingKey: hs[0], VerificationKey: hs[1], WitnessCalcWASM: hs[2]}, o.cache)
	o.desc = fmt.Sprintf("%s cache=%v hashes=%.10s,%.10s,%.10s", o.format, o.cache, hs[0], hs[1], hs[2])
	return o
}

// get asks for file i; ok with what was compared.
func (o *c22Obj) get(i int) (err error, same bool, got string) {
	switch i {
	case 0:
		pk, err := o.z.ProvingKey()
		if err != nil {
			return err, false, ""
		}
		if pk == nil {
			return nil, false, "nil"
		}
		got = pkSum(pk)
		return nil, got == o.art.pk[o.names[0]], got
	case 1:
		vk, err := o.z.VerificationKey()
		if err != nil {
			return err, false, ""
		}
		if vk == nil {
			return nil, false, "nil"
		}
		got = vkSum(vk)
		return nil, got == o.art.vk, got
	}
	w, err := o.z.WitnessCalcWASM()
	if err != nil {
		return err, false, ""
	}
	return nil, bytes.Equal(w, o.art.content[o.names[2]]), hexSum(w)
}

func (o *c22Obj) download(i int) error {
	return []func() error{o.z.DownloadProvingKey, o.z.DownloadVerificationKey, o.z.DownloadWitnessCalcWASM}[i]()
}

func (o *c22Obj) load(i int) error {
	return []func() error{o.z.LoadProvingKey, o.z.LoadVerificationKey, o.z.LoadWitnessCalcWASM}[i]()
}

func c22History(c *C) {
	c22Init()
	srv := newC22Srv(c, c22Arts[0].content)
	defer srv.close()
	dir := filepath.Join(c.Dir(), "zk", "files")
	if c.R.Intn(3) == 0 {
		c.Must(os.MkdirAll(dir, 0700), "mkdir")
	}
	var objs []*c22Obj
	for i := 0; i < 1+c.R.Intn(3); i++ {
		o := newC22Obj(c, srv.url, dir)
		objs = append(objs, o)
		c.Logf("loader %d: %s", i, o.desc)
	}
	disk := map[string][]byte{}
	read := func(n string) []byte {
		b, err := ioutil.ReadFile(filepath.Join(dir, n))
		if err != nil {
			if !os.IsNotExist(err) {
				c.Broken("read: %v", err)
			}
			return nil
		}
		if b == nil {
			b = []byte{}
		}
		return b
	}
	gets := func(n string) int {
		srv.mu.Lock()
		defer srv.mu.Unlock()
		return srv.gets[n]
	}
	eq := func(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) }
	word := func(b []byte) string {
		switch {
		case b == nil:
			return "absent"
		}
		for i, a := range c22Arts {
			for n, x := range a.content {
				if bytes.Equal(x, b) {
					return fmt.Sprintf("%s of circuit %d", n, i)
				}
			}
		}
		return fmt.Sprintf("damaged (%d bytes)", len(b))
	}
	failedOnce := map[string]bool{}
	var kinds string
	for step := 0; step < 8+c.R.Intn(25); step++ {
		o := objs[c.R.Intn(len(objs))]
		i := c.R.Intn(3)
		n := o.names[i]
		switch op := c.R.Intn(20); {
		case op < 3: // damage or remove a file
			if read(n) == nil && op != 0 {
				break
			}
			c.Must(os.MkdirAll(dir, 0700), "mkdir")
			p := filepath.Join(dir, n)
			var b []byte
			switch k := c.R.Intn(8); k {
			case 0, 1, 2:
				os.Remove(p)
				b = nil
			case 3:
				b = append([]byte{}, o.art.content[n]...)
				b[c.R.Intn(len(b))] ^= 1 << uint(c.R.Intn(8))
			case 4:
				b = append([]byte{}, o.art.content[n][:c.R.Intn(len(o.art.content[n]))]...)
			case 5:
				b = append(append([]byte{}, o.art.content[n]...), 0)
			case 6:
				b = append([]byte{}, c22Arts[c.R.Intn(2)].content[n]...)
			case 7:
				b = []byte{}
			}
			if b != nil {
				c.Must(ioutil.WriteFile(p, b, 0600), "write")
			}
			disk[n] = b
			c.Logf("the harness makes %s %s", n, word(b))
			kinds += "d"
			continue
		case op < 7: // the server's next answers
			srv.mu.Lock()
			srv.script[n] = nil
			for k := c.R.Intn(3); k > 0; k-- {
				srv.script[n] = append(srv.script[n], c22Faults[c.R.Intn(len(c22Faults))])
			}
			c.Logf("server: %s answers %v", n, srv.script[n])
			srv.mu.Unlock()
			continue
		case op < 17: // one file, in one of three ways
			how := c.R.Intn(4)
			srv.mu.Lock()
			beh := srv.next(n)
			content, full := srv.served(n, beh)
			srv.mu.Unlock()
			before, g0 := disk[n], gets(n)
			var err error
			same, got := true, ""
			switch how {
			case 0:
				err = o.download(i)
			case 1:
				err = o.load(i)
			default:
				err, same, got = o.get(i)
			}
			what := fmt.Sprintf("%s of %s by loader (%s)", []string{"Download", "Load", "getter", "getter"}[how], n, o.desc)
			asked := gets(n) - g0
			after := read(n)
			c.Logf("%s -> %v; file %s -> %s, %d requests (%s)", what, err, word(before), word(after), asked, beh)
			kinds += fmt.Sprintf("%d%v", how, err == nil)
			// what is on disk
			if before != nil {
				c.Assert(eq(before, after), "existing-file-changed", "%s: the file, %s, became %s", what, word(before), word(after))
				c.Assert(asked == 0, "downloaded-again", "%s: asked the server %d times although the file exists", what, asked)
			} else {
				c.Assert(asked <= 1, "downloaded-more", "%s: asked the server %d times", what, asked)
				if after != nil {
					c.Assert(asked == 1 && full && o.want[i] != nil && eq(after, content) && eq(after, o.want[i]), "bad-download-left",
						"%s: the server answered %q; the file is now %s", what, beh, word(after))
					c.Count("served", 1)
					if failedOnce[n] {
						c.Count("recovered", 1)
					}
				} else if asked == 1 {
					c.Count("failed downloads", 1)
					failedOnce[n] = true
				}
			}
			disk[n] = after
			// the answer
			if err == nil {
				c.Assert(o.want[i] != nil, "wrong-hash-accepted", "%s succeeded although no content has that hash", what)
				if how >= 2 {
					c.Assert(same, "wrong-content", "%s gave content with fingerprint %s, not that of its hash", what, got)
					c.Count("content compared", 1)
				}
				if how == 0 || !o.touch[i] {
					c.Assert(eq(after, o.want[i]), "damaged-accepted", "%s succeeded with the file being %s", what, word(after))
				}
				if how >= 2 && i == 0 && !o.cache {
					c.Assert(eq(after, o.want[i]), "damaged-accepted", "%s succeeded with the file being %s (not cached)", what, word(after))
				}
				o.touch[i] = true
				if o.want[i] != nil && eq(after, o.want[i]) {
					c.Count("intact loaded", 1)
					c.Count("format "+string(o.format), 1)
				}
			} else {
				c.Assert(!(o.want[i] != nil && eq(before, o.want[i])), "intact-refused", "%s failed with the intact file on disk: %v", what, err)
				if before == nil && !o.touch[i] && o.want[i] != nil {
					c.Assert(!(full && eq(content, o.want[i])), "download-refused", "%s failed although the server answered with the right content: %v", what, err)
				}
				if before != nil {
					c.Count(either(o.want[i] == nil, "refused wrong hash", "refused damaged"), 1)
				}
			}
		case op < 18:
			h, err := o.z.InsecureCalcHashes()
			all := true
			for _, n := range o.names {
				all = all && disk[n] != nil
			}
			c.Logf("InsecureCalcHashes -> %v", err)
			c.Assert((err == nil) == all, "calc-hashes", "InsecureCalcHashes with files %s, %s, %s: %v", word(disk[o.names[0]]), word(disk[o.names[1]]), word(disk[o.names[2]]), err)
			if err == nil {
				c.Assert(*h == zkutils.ZkFilesHashes{ProvingKey: hexSum(disk[o.names[0]]), VerificationKey: hexSum(disk[o.names[1]]), WitnessCalcWASM: hexSum(disk[o.names[2]])},
					"calc-hashes", "InsecureCalcHashes gave %+v", *h)
				c.Count("hashes calculated", 1)
			}
		case op < 19:
			srv.mu.Lock()
			ok := true
			exp := map[string][]byte{}
			for _, n := range o.names {
				exp[n] = disk[n]
				if disk[n] == nil && ok {
					x, full := srv.served(n, srv.next(n))
					if full {
						exp[n] = x
					} else {
						ok = false
					}
				}
			}
			srv.mu.Unlock()
			err := o.z.InsecureDownloadAll()
			c.Logf("InsecureDownloadAll -> %v", err)
			c.Assert((err == nil) == ok, "insecure-download", "InsecureDownloadAll: %v, but the downloads %s", err, either(ok, "are complete", "fail"))
			for _, n := range o.names {
				got := read(n)
				c.Assert(eq(got, exp[n]), "incomplete-left", "after InsecureDownloadAll (%v) %s is %s instead of %s", err, n, word(got), word(exp[n]))
				disk[n] = got
			}
			c.Count("insecure downloads", 1)
		default:
			load := c.R.Intn(2) == 0
			g0 := [3]int{gets(o.names[0]), gets(o.names[1]), gets(o.names[2])}
			should := true
			bad := false
			srv.mu.Lock()
			for i, n := range o.names {
				x, full := srv.served(n, srv.next(n))
				now := disk[n]
				if now == nil && full {
					now = x
				}
				should = should && o.want[i] != nil && eq(now, o.want[i]) && !(disk[n] == nil && o.touch[i])
				bad = bad || o.want[i] == nil || (!eq(now, o.want[i]) && (!load || !o.touch[i]))
			}
			srv.mu.Unlock()
			var err error
			if load {
				err = o.z.LoadAll()
			} else {
				err = o.z.DownloadAll()
			}
			c.Logf("%s -> %v", either(load, "LoadAll", "DownloadAll"), err)
			c.Assert(!(should && err != nil), "intact-refused", "%s of loader (%s) failed: %v", either(load, "LoadAll", "DownloadAll"), o.desc, err)
			c.Assert(!(bad && err == nil), "damaged-accepted", "%s of loader (%s) succeeded", either(load, "LoadAll", "DownloadAll"), o.desc)
			for i, n := range o.names {
				got := read(n)
				if disk[n] != nil {
					c.Assert(eq(got, disk[n]) && gets(n) == g0[i], "existing-file-changed", "the file %s, %s, became %s", n, word(disk[n]), word(got))
				} else if got != nil {
					c.Assert(eq(got, o.want[i]), "bad-download-left", "%s is now %s", n, word(got))
				}
				disk[n] = got
				if err == nil || eq(got, o.want[i]) {
					o.touch[i] = true // a failing call may have loaded some
				}
			}
		}
	}
	c.Distinct("%s %s", objs[0].desc, kinds)
	if c.N == 1 {
		c.Sample("%d loaders, first %s: %s", len(objs), objs[0].desc, kinds)
	}
}

// c22Conc: goroutines and several loaders ask for the same files at once.
func c22Conc(c *C) {
	c22Init()
	srv := newC22Srv(c, c22Arts[0].content)
	defer srv.close()
	dir := filepath.Join(c.Dir(), "zk")
	nObj := 1 + c.R.Intn(3)
	format := c22Formats[c.R.Intn(3)]
	names := [3]string{"proving_key." + string(format), "verification_key.json", "circuit.wasm"}
	art := c22Arts[0]
	hs := zkutils.ZkFilesHashes{ProvingKey: hexSum(art.content[names[0]]), VerificationKey: hexSum(art.content[names[1]]), WitnessCalcWASM: hexSum(art.content[names[2]])}
	var objs []*c22Obj
	for i := 0; i < nObj; i++ {
		cache := c.R.Intn(2) == 0
		objs = append(objs, &c22Obj{z: zkutils.NewZkFiles(srv.url, dir, format, hs, cache), art: art, names: names, format: format, cache: cache})
	}
	bad := map[string]int{}
	for _, n := range names {
		for k := c.R.Intn(5) - 2; k > 0; k-- {
			srv.script[n] = append(srv.script[n], c22Faults[c.R.Intn(len(c22Faults))])
			bad[n]++
		}
		srv.script[n] = append(srv.script[n], either(c.R.Intn(2) == 0, "slow", "ok"))
	}
	type res struct {
		file int
		err  error
		same bool
	}
	g := 4 + c.R.Intn(5)
	all := make([][]res, g)
	plan := make([][]int, g)
	for k := range plan {
		plan[k] = append(c.R.Perm(3), c.R.Perm(3)...)
	}
	var start sync.WaitGroup
	start.Add(1)
	for k := 0; k < g; k++ {
		k := k
		o := objs[k%nObj]
		c.Go(func() {
			start.Wait()
			for _, i := range plan[k] {
				var r res
				r.file = i
				r.err, r.same, _ = o.get(i)
				all[k] = append(all[k], r)
			}
		})
	}
	start.Done()
	c.Wait()
	fails := map[string]int{}
	for k := range all {
		for _, r := range all[k] {
			c.Count("loads", 1)
			if r.err != nil {
				fails[names[r.file]]++
				c.Logf("%s: %v", names[r.file], r.err)
			} else {
				c.Assert(r.same, "wrong-content", "a concurrent load of %s gave other content", names[r.file])
			}
		}
	}
	srv.mu.Lock()
	defer srv.mu.Unlock()
	for _, n := range names {
		c.Assert(fails[n] == bad[n], "concurrent-failures", "%s: %d loads failed, the server failed %d", n, fails[n], bad[n])
		c.Assert(srv.gets[n] == bad[n]+1, "downloaded-more", "%s: %d requests; %d answers were bad and the next one was right", n, srv.gets[n], bad[n])
		c.Count("downloaded once", 1)
		if bad[n] > 0 {
			c.Count("failed then recovered", 1)
		}
	}
	c.Distinct("%s %d %d %v", format, nObj, g, bad)
}

// ---------------------------------------------------------------- processes

type zkChildArgs struct {
	Dir, Url, Format string
	Hashes           zkutils.ZkFilesHashes
	Cache            bool
	Mode             string
	Files            []int
}

// zkChild: a process that uses ZkFiles.
func zkChild(args []string) int {
	var a zkChildArgs
	if err := json.Unmarshal([]byte(args[0]), &a); err != nil {
		fmt.Println("ERR", err)
		return 2
	}
	z := zkutils.NewZkFiles(a.Url, a.Dir, zkutils.ProvingKeyFormat(a.Format), a.Hashes, a.Cache)
	if a.Mode == "debug" {
		if err := z.DebugDownloadPrintHashes(zkutils.ProvingKeyFormat(a.Format)); err != nil {
			fmt.Println("ERR", err)
			return 1
		}
		return 0
	}
	o := &c22Obj{z: z, art: &c22Art{}}
	for _, i := range a.Files {
		err, _, got := o.get(i)
		if err != nil {
			fmt.Printf("FILE %d ERR %v\n", i, err)
		} else {
			fmt.Printf("FILE %d OK %s\n", i, got)
		}
	}
	fmt.Println("END")
	return 0
}

func zkCmd(a zkChildArgs) *exec.Cmd {
	b, _ := json.Marshal(a)
	return exec.Command(os.Args[0], "zkchild", string(b))
}

func c22Procs(c *C) {
	c22Init()
	srv := newC22Srv(c, c22Arts[0].content)
	defer srv.close()
	dir := filepath.Join(c.Dir(), "zk")
	format := c22Formats[c.R.Intn(3)]
	names := [3]string{"proving_key." + string(format), "verification_key.json", "circuit.wasm"}
	art := c22Arts[0]
	want := [3]string{art.pk[names[0]], art.vk, hexSum(art.content[names[2]])}
	a := zkChildArgs{Dir: dir, Url: srv.url, Format: string(format), Cache: c.R.Intn(2) == 0, Files: []int{0, 1, 2},
		Hashes: zkutils.ZkFilesHashes{ProvingKey: hexSum(art.content[names[0]]), VerificationKey: hexSum(art.content[names[1]]), WitnessCalcWASM: want[2]}}
	kill := c.R.Intn(2) == 0
	victim := c.R.Intn(3)
	if kill {
		srv.script[names[victim]] = []string{"stall"}
		cmd := zkCmd(a)
		c.Must(cmd.Start(), "start")
		select {
		case <-srv.half:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			cmd.Wait()
			c.Fail("no-download", "a process with an empty directory did not download %s within a minute", names[victim])
		}
		time.Sleep(time.Duration(c.R.Intn(20)) * time.Millisecond)
		// others wait for the first one, or take over when it dies
		other := zkCmd(a)
		var out bytes.Buffer
		other.Stdout = &out
		c.Must(other.Start(), "start")
		if c.R.Intn(2) == 0 {
			time.Sleep(time.Duration(c.R.Intn(300)) * time.Millisecond)
		}
		_, err := os.Stat(filepath.Join(dir, names[victim]))
		c.Assert(os.IsNotExist(err), "partial-in-place", "%s is in place while it is being downloaded", names[victim])
		cmd.Process.Signal(syscall.SIGKILL)
		cmd.Wait()
		c.Count("killed while downloading", 1)
		c.Must(other.Wait(), "other process")
		c22Verify(c, out.String(), want, "a process that started while the one killed was downloading")
		close(srv.stall)
		c.Count("recovered after kill", 1)
	}
	base := map[string]int{}
	srv.mu.Lock()
	for _, n := range names {
		base[n] = srv.gets[n]
		if kill {
			exp := 1
			if n == names[victim] {
				exp = 2
			}
			c.Assert(base[n] == exp, "downloaded-more", "%s was requested %d times by a killed and another process", n, base[n])
		} else {
			srv.script[n] = []string{"slow"}
		}
	}
	srv.mu.Unlock()
	var cmds []*exec.Cmd
	outs := make([]bytes.Buffer, 3+c.R.Intn(3))
	for i := range outs {
		b := a
		b.Files = c.R.Perm(3)
		cmd := zkCmd(b)
		cmd.Stdout = &outs[i]
		c.Must(cmd.Start(), "start")
		cmds = append(cmds, cmd)
	}
	for i, cmd := range cmds {
		c.Must(cmd.Wait(), "process")
		c22Verify(c, outs[i].String(), want, "one of several processes")
		c.Count("processes", 1)
	}
	srv.mu.Lock()
	for _, n := range names {
		exp := base[n]
		if !kill {
			exp = 1
		}
		c.Assert(srv.gets[n] == exp, "downloaded-more", "%s was requested %d times by %d processes (before: %d)", n, srv.gets[n], len(cmds), base[n])
	}
	srv.mu.Unlock()
	c.Count("downloaded once", 1)
	c.Distinct("%s %v %d %d", format, kill, victim, len(cmds))
}

func c22Verify(c *C, out string, want [3]string, who string) {
	seen := 0
	for _, l := range strings.Split(out, "\n") {
		var i int
		var st, got string
		if n, _ := fmt.Sscanf(l, "FILE %d %s %s", &i, &st, &got); n >= 2 {
			c.Assert(st == "OK", "process-failed", "%s could not load a file: %s", who, l)
			c.Assert(got == want[i], "wrong-content", "%s got other content: %s", who, l)
			seen++
		}
	}
	c.Assert(seen == 3 && strings.Contains(out, "END"), "process-failed", "%s did not finish: %q", who, out)
}

// ---------------------------------------------------------------- encodings

func c22Codec(c *C) {
	// public signals
	n := c.R.Intn(6)
	sig := make(zkutils.PubSignals, n)
	for i := range sig {
		switch c.R.Intn(6) {
		case 0:
			sig[i] = big.NewInt(int64(c.R.Intn(3)))
		case 1:
			sig[i] = new(big.Int).Sub(fR, big.NewInt(int64(1+c.R.Intn(3))))
		case 2:
			sig[i] = new(big.Int).Lsh(big.NewInt(int64(1+c.R.Intn(255))), uint(8*c.R.Intn(31)))
		case 3:
			sig[i] = new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(1+c.R.Intn(253))))
		default:
			sig[i] = new(big.Int).Rand(c.R, fR)
		}
	}
	keep := fmt.Sprint([]*big.Int(sig))
	j, err := json.Marshal(sig)
	c.Assert(err == nil, "signals-encode", "%v: %v", sig, err)
	back := zkutils.PubSignals{big.NewInt(9), big.NewInt(8), big.NewInt(7), big.NewInt(6), big.NewInt(5), big.NewInt(4)}
	c.Assert(json.Unmarshal(j, &back) == nil && len(back) == n, "signals-decode", "%s decodes to %v", j, back)
	for i := range sig {
		c.Assert(back[i] != nil && back[i].Cmp(sig[i]) == 0, "signals-round-trip", "%v encodes to %s, which decodes to %v", sig, j, back)
	}
	j2, _ := json.Marshal(back)
	c.Assert(bytes.Equal(j, j2) && fmt.Sprint([]*big.Int(sig)) == keep, "signals-round-trip", "%s encodes again to %s", j, j2)
	wrapped := struct{ P zkutils.PubSignals }{sig}
	jw, err := json.Marshal(wrapped)
	var bw struct{ P zkutils.PubSignals }
	c.Assert(err == nil && json.Unmarshal(jw, &bw) == nil && fmt.Sprint([]*big.Int(bw.P)) == keep, "signals-round-trip", "inside an object: %s", jw)
	c.Count("signals", n)
	// proofs
	rs := func() *big.Int {
		if c.R.Intn(12) == 0 {
			return new(big.Int)
		}
		return new(big.Int).Add(new(big.Int).Rand(c.R, new(big.Int).Sub(fR, big.NewInt(3))), big.NewInt(2))
	}
	p := &zktypes.Proof{A: g1(rs()), B: g2(rs()), C: g1(rs())}
	mA, mB, mC := p.A.Marshal(), p.B.Marshal(), p.C.Marshal()
	a, b, cc := zkutils.ProofToBigInts(p)
	xa := zkutils.G1ToBigInts(p.A)
	xb := zkutils.G2ToBigInts(p.B)
	c.Assert(fmt.Sprint(xa, xb) == fmt.Sprint(a, b), "proof-ints", "ProofToBigInts gives %v %v, its parts %v %v", a, b, xa, xb)
	c.Assert(onG1(a) && onG1(cc), "off-curve", "%v or %v is not on the curve", a, cc)
	c.Assert(onG2(b), "off-curve", "%v is not on the twisted curve", b)
	c.Count("points on curve", 3)
	d := func(x *big.Int) string { return x.String() }
	pj, _ := json.Marshal(parsers.ProofString{A: []string{d(a[0]), d(a[1]), "1"}, B: [][]string{{d(b[0][1]), d(b[0][0])}, {d(b[1][1]), d(b[1][0])}, {"1", "0"}},
		C: []string{d(cc[0]), d(cc[1]), "1"}, Protocol: "groth"})
	q, err := parsers.ParseProof(pj)
	c.Assert(err == nil && bytes.Equal(q.A.Marshal(), mA) && bytes.Equal(q.B.Marshal(), mB) && bytes.Equal(q.C.Marshal(), mC), "proof-ints",
		"the integers of a proof are those of another one: %s (%v)", pj, err)
	out := zkutils.ZkProofOut{Proof: *p, PubSignals: sig}
	jo, err := json.Marshal(out)
	c.Assert(err == nil, "proof-json", "%v", err)
	var o2 zkutils.ZkProofOut
	c.Assert(json.Unmarshal(jo, &o2) == nil && bytes.Equal(o2.Proof.A.Marshal(), mA) && bytes.Equal(o2.Proof.B.Marshal(), mB) && bytes.Equal(o2.Proof.C.Marshal(), mC) &&
		fmt.Sprint(o2.PubSignals) == keep, "proof-json", "%s", jo)
	c.Assert(bytes.Equal(p.A.Marshal(), mA) && bytes.Equal(p.B.Marshal(), mB) && bytes.Equal(p.C.Marshal(), mC), "proof-changed", "encoding changed the proof")
	c.Count("proofs", 1)
	// inputs
	in := struct {
		X  *big.Int   `mapstructure:"x"`
		Ys []*big.Int `mapstructure:"yS"`
		Z  *big.Int
	}{rs(), sig, big.NewInt(int64(c.R.Intn(2)))}
	m, err := zkutils.InputsToMapStrings(in)
	c.Assert(err == nil && len(m) == 3, "inputs", "%v: %v", m, err)
	ys, ok := m["yS"].([]string)
	c.Assert(ok && m["x"] == in.X.String() && m["Z"] == in.Z.String() && len(ys) == n, "inputs", "%+v became %v", in, m)
	for i := range ys {
		c.Assert(ys[i] == sig[i].String(), "inputs", "%+v became %v", in, m)
	}
	c.Count("inputs", 1)
	if c.N%16 == 0 {
		// the helper that prints hashes of what the server has
		c22Init()
		srv := newC22Srv(c, c22Arts[0].content)
		defer srv.close()
		f := string(c22Formats[c.R.Intn(3)])
		names := [3]string{"proving_key." + f, "verification_key.json", "circuit.wasm"}
		bad := c.R.Intn(3) == 0
		if bad {
			srv.script[names[c.R.Intn(3)]] = []string{[]string{"404", "half-length", "abort", "close"}[c.R.Intn(4)]}
		}
		cmd := zkCmd(zkChildArgs{Mode: "debug", Url: srv.url, Format: f, Dir: c.Dir()})
		tmp := filepath.Join(c.Dir(), "tmp")
		c.Must(os.MkdirAll(tmp, 0700), "mkdir")
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
		o, err := cmd.CombinedOutput()
		all := true
		for _, n := range names {
			all = all && strings.Contains(string(o), hexSum(c22Arts[0].content[n]))
		}
		c.Assert(bad == (err != nil) && (bad || all), "print-hashes", "DebugDownloadPrintHashes (server %s): %v %s", either(bad, "failing", "working"), err, o)
		l, _ := ioutil.ReadDir(tmp)
		c.Assert(len(l) == 0, "print-hashes-left", "DebugDownloadPrintHashes left %d files", len(l))
		c.Count("hashes printed", 1)
	}
	c.Distinct("%s", keep)
}

func onG1(p [2]*big.Int) bool {
	if p[0].Sign() == 0 && p[1].Sign() == 0 {
		return true
	}
	q := zktypes.Q
	l := new(big.Int).Exp(p[1], big.NewInt(2), q)
	r := new(big.Int).Exp(p[0], big.NewInt(3), q)
	r.Add(r, big.NewInt(3)).Mod(r, q)
	return l.Cmp(r) == 0
}

// onG2: y² = x³ + 3/(9+i); coordinates are (imaginary, real).
func onG2(p [2][2]*big.Int) bool {
	if p[0][0].Sign() == 0 && p[0][1].Sign() == 0 && p[1][0].Sign() == 0 && p[1][1].Sign() == 0 {
		return true
	}
	q := zktypes.Q
	type e struct{ i, r *big.Int }
	mul := func(a, b e) e {
		r := new(big.Int).Sub(new(big.Int).Mul(a.r, b.r), new(big.Int).Mul(a.i, b.i))
		i := new(big.Int).Add(new(big.Int).Mul(a.r, b.i), new(big.Int).Mul(a.i, b.r))
		return e{i.Mod(i, q), r.Mod(r, q)}
	}
	x, y := e{p[0][0], p[0][1]}, e{p[1][0], p[1][1]}
	// 3/(9+i) = 3(9-i)/82
	inv := new(big.Int).ModInverse(big.NewInt(82), q)
	br := new(big.Int).Mul(big.NewInt(27), inv)
	bi := new(big.Int).Mul(big.NewInt(-3), inv)
	r := mul(mul(x, x), x)
	r.r.Add(r.r, br).Mod(r.r, q)
	r.i.Add(r.i, bi).Mod(r.i, q)
	l := mul(y, y)
	return l.r.Cmp(r.r) == 0 && l.i.Cmp(r.i) == 0
}
