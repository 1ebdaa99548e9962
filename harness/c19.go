package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func init() {
	rules["C19"] = "key imports in child processes in which every file system call in turn fails or is where the process is killed, in which the file may grow to a given size only (with and without being killed for it), or that are killed at a random moment; imports over a storage whose n-th write fails before or after its effect; and sequences and races of opening, closing and crashing owners in one and in several processes; non-trivial: a fault, a crash or a refused owner occurs"
	assumptions["C19"] = []string{"the file system does what its calls report: data of a file that was not synced before the machine stops is not modelled"}
	reg(Part{Prop: "C19", Name: "syscalls", Quick: 2 * len(ksCalls), Thorough: 2 * len(ksCalls), Run: c19syscalls})
	reg(Part{Prop: "C19", Name: "growth", Quick: 16, Thorough: 400, Run: c19growth})
	reg(Part{Prop: "C19", Name: "kill", Quick: 24, Thorough: 1000, Run: c19kill})
	reg(Part{Prop: "C19", Name: "storage", Quick: 48, Thorough: 1500, Run: c19storage})
	reg(Part{Prop: "C19", Name: "owners", Quick: 96, Thorough: 4000, Run: c19owners})
	reg(Part{Prop: "C19", Name: "contend", Quick: 6, Thorough: 100, Workers: 2, Run: c19contend})
}

var ksCalls = []string{"openat", "write", "fsync", "close", "renameat,rename,renameat2", "flock", "unlinkat,unlink", "ftruncate,truncate", "fdatasync,sync_file_range", "pwrite64,writev,pwritev", "fchmod,fchmodat,chmod", "newfstatat,fstat,lstat,readlinkat"}

func init() {
	if len(os.Args) > 1 && os.Args[1] == "kschild" {
		runtime.LockOSThread() // faults are counted per thread
	}
}

func ksSk(seed int64, i int) (sk babyjub.PrivateKey) {
	rand.New(rand.NewSource(seed + int64(i)*7919)).Read(sk[:])
	return
}

func ksPass(i int) []byte { return []byte(fmt.Sprintf("password %d", i)) }

// ksChild runs in a process of its own.
func ksChild(a []string) int {
	say := func(f string, x ...interface{}) { fmt.Fprintf(os.Stdout, f+"\n", x...) }
	path := a[1]
	switch a[0] {
	case "ops": // path seed from to fsize ignore
		seed, _ := strconv.ParseInt(a[2], 10, 64)
		from, _ := strconv.Atoi(a[3])
		to, _ := strconv.Atoi(a[4])
		if n, _ := strconv.Atoi(a[5]); n >= 0 {
			lim := syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
				say("broken %v", err)
				return 3
			}
			if a[6] == "ignore" {
				signal.Ignore(syscall.SIGXFSZ)
			}
		}
		ks, err := keystore.NewKeyStore(keystore.NewFileStorage(path), cheapKS)
		if err != nil {
			say("noopen %v", err)
			return 0
		}
		say("open")
		for i := from; i < to; i++ {
			say("try %d", i)
			if _, err := ks.ImportKey(ksSk(seed, i), ksPass(i)); err != nil {
				say("err %d %v", i, err)
			} else {
				say("ack %d", i)
			}
		}
		var l []string
		for _, pk := range ks.Keys() {
			l = append(l, pk.String())
		}
		say("keys %s", strings.Join(l, " "))
		if err := ks.Close(); err != nil {
			say("noclose %v", err)
			return 0
		}
		say("closed")
		return 0
	case "hold":
		ks, err := keystore.NewKeyStore(keystore.NewFileStorage(path), cheapKS)
		if err != nil {
			say("noopen %v", err)
			return 0
		}
		say("open")
		b := make([]byte, 1)
		for {
			if n, err := os.Stdin.Read(b); n == 0 || err != nil {
				return 0
			}
			if b[0] == 'c' {
				err := ks.Close()
				say("closed %v", err)
			}
		}
	case "contend": // path marker rounds
		n, _ := strconv.Atoi(a[3])
		seed, _ := strconv.ParseInt(a[4], 10, 64)
		r := rand.New(rand.NewSource(seed))
		got, refused := 0, 0
		fs := keystore.NewFileStorage(path)
		for i := 0; i < n; i++ {
			if r.Intn(2) == 0 {
				fs = keystore.NewFileStorage(path)
			}
			ks, err := keystore.NewKeyStore(fs, cheapKS)
			if err != nil {
				if !errors.Is(err, keystore.ErrStorageLock) {
					say("badopen %v", err)
				}
				refused++
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
				continue
			}
			f, err := os.OpenFile(a[2], os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0600)
			if err != nil {
				say("two %v", err)
				return 0
			}
			f.Close()
			got++
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
			}
			os.Remove(a[2])
			if err := ks.Close(); err != nil {
				say("badclose %v", err)
			}
		}
		say("done %d %d", got, refused)
		return 0
	}
	return 3
}

type ksRun struct {
	tried, acked, failed map[int]bool
	keys                 []string
	hasKeys, opened      bool
	out                  string
	injected             bool
	crashed              bool
}

// runKs runs a child that imports the keys [from, to); inject is an strace expression.
func runKs(c *C, path string, seed int64, from, to, fsize int, ignore string, inject string, killAfter time.Duration) *ksRun {
	args := []string{os.Args[0], "kschild", "ops", path, fmt.Sprint(seed), fmt.Sprint(from), fmt.Sprint(to), fmt.Sprint(fsize), ignore}
	tr := ""
	if inject != "" {
		tr = filepath.Join(c.Dir(), "trace")
		calls := inject[:strings.Index(inject, ":")]
		args = append([]string{"strace", "-f", "-qq", "-o", tr, "-e", "trace=" + calls, "-e", "inject=" + inject}, args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	var ob bytes.Buffer
	cmd.Stdout = &ob
	c.Must(cmd.Start(), "start")
	t := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	if killAfter > 0 {
		time.Sleep(killAfter)
		_ = cmd.Process.Kill()
	}
	err := cmd.Wait()
	if !t.Stop() {
		c.Fail("child-hangs", "a process using the store does not end (%s)", inject)
	}
	r := &ksRun{tried: map[int]bool{}, acked: map[int]bool{}, failed: map[int]bool{}, out: ob.String(), crashed: err != nil}
	if tr != "" {
		b, _ := ioutil.ReadFile(tr)
		r.injected = strings.Contains(string(b), "INJECTED") || strings.Contains(string(b), "killed by SIGKILL") || strings.Contains(string(b), "SIGKILL")
	}
	for _, l := range strings.Split(r.out, "\n") {
		f := strings.Fields(l)
		if len(f) < 1 {
			continue
		}
		n := -1
		if len(f) > 1 {
			n, _ = strconv.Atoi(f[1])
		}
		switch f[0] {
		case "open":
			r.opened = true
		case "try":
			r.tried[n] = true
		case "ack":
			r.acked[n] = true
		case "err":
			r.failed[n] = true
		case "keys":
			r.hasKeys, r.keys = true, f[1:]
		case "broken":
			c.Broken("child: %s", l)
		}
	}
	return r
}

// verifyKs opens the store after a child and checks it; it returns the indexes present.
func verifyKs(c *C, path string, seed int64, must map[int]bool, may map[int]bool, r *ksRun, what string) map[int]bool {
	ks, err := keystore.NewKeyStore(keystore.NewFileStorage(path), cheapKS)
	c.Assert(err == nil, "not-opened-again", "the store can not be opened after %s: %v", what, err)
	defer ks.Close() //nolint
	have := map[string]bool{}
	for _, pk := range ks.Keys() {
		have[pk.String()] = true
	}
	in := map[int]bool{}
	n := 0
	for i := 0; i < 64; i++ {
		if !must[i] && !may[i] {
			continue
		}
		pk := pkOf(ksSk(seed, i))
		if !have[pk.String()] {
			c.Assert(!must[i], "key-lost", "after %s the key %d is not in the store, that was acknowledged: %s", what, i, strings.Replace(r.out, "\n", ";", -1))
			continue
		}
		in[i] = true
		n++
		err := ks.UnlockKey(&pk, ksPass(i))
		c.Assert(err == nil, "key-unreadable", "after %s the key %d can not be unlocked: %v", what, i, err)
		sk, err := ks.ExportKey(&pk)
		c.Assert(err == nil && *sk == ksSk(seed, i), "key-wrong", "after %s the key %d is not the one imported: %v", what, i, err)
	}
	c.Assert(n == len(have), "key-unknown", "after %s there are %d keys instead of %d", what, len(have), n)
	if r != nil && r.hasKeys {
		for _, k := range r.keys {
			c.Assert(have[k], "live-not-stored", "after %s the live store had a key that is not in the file: %s", what, strings.Replace(r.out, "\n", ";", -1))
		}
		c.Assert(len(r.keys) >= len(must), "live-lacks", "after %s the live store lacks keys that are in the file", what)
	}
	// the store is still usable
	return in
}

type ksEnv struct {
	path string
	seed int64
}

// newKsEnv makes a store with keys 0 and 1.
func newKsEnv(c *C, n int) *ksEnv {
	dir := filepath.Join(c.Dir(), fmt.Sprintf("d%d", c.R.Int63()))
	c.Must(os.Mkdir(dir, 0700), "mkdir")
	e := &ksEnv{path: filepath.Join(dir, "keys"), seed: c.R.Int63()}
	ks, err := keystore.NewKeyStore(keystore.NewFileStorage(e.path), cheapKS)
	c.Must(err, "open")
	for i := 0; i < n; i++ {
		_, err := ks.ImportKey(ksSk(e.seed, i), ksPass(i))
		c.Must(err, "import")
	}
	c.Must(ks.Close(), "close")
	return e
}

// judge checks the store after a child that imported [2,5), and after another one without faults.
func (e *ksEnv) judge(c *C, r *ksRun, pre int, what string) {
	must, may := map[int]bool{}, map[int]bool{}
	for i := 0; i < pre; i++ {
		must[i] = true
	}
	for i := range r.acked {
		must[i] = true
		c.Count("acknowledged", 1)
	}
	for i := range r.tried {
		may[i] = true
	}
	// the line that announces an attempt may itself have been lost
	for i := pre; i < pre+3; i++ {
		may[i] = true
	}
	if r.hasKeys && len(r.failed) > 0 {
		c.Count("failed_imports", len(r.failed))
	}
	in := verifyKs(c, e.path, e.seed, must, may, r, what)
	r2 := runKs(c, e.path, e.seed, pre+3, pre+4, -1, "", "", 0)
	c.Assert(r2.acked[pre+3], "not-usable", "after %s importing a key in another process fails: %s", what, r2.out)
	in[pre+3] = true
	verifyKs(c, e.path, e.seed, in, nil, r2, what+" and another import")
}

func c19syscalls(c *C) {
	call := ksCalls[c.N/2]
	mode := []string{"signal=SIGKILL", "error=EIO"}[c.N%2]
	if c.N%2 == 1 && c.R.Intn(2) == 0 {
		mode = "error=ENOSPC"
	}
	// strace must work and see the calls
	probe := newKsEnv(c, 1)
	r := runKs(c, probe.path, probe.seed, 1, 2, -1, "", "openat:error=ENOENT:when=9999", 0)
	if !r.acked[1] {
		c.Broken("strace does not work: %s", r.out)
	}
	pre := 2
	max := 80
	for k := 1; k <= max; k++ {
		e := newKsEnv(c, pre)
		r := runKs(c, e.path, e.seed, pre, pre+3, -1, "", fmt.Sprintf("%s:%s:when=%d", call, mode, k), 0)
		if !r.injected {
			c.Assert(len(r.acked) == 3, "import-fails", "importing keys without a fault fails: %s", r.out)
			break
		}
		c.Count("faults", 1)
		if r.crashed {
			c.Count("crashes", 1)
		}
		e.judge(c, r, pre, fmt.Sprintf("%s at %s %d", mode, call, k))
		c.Distinct("%s %s %d", call, mode, k)
	}
	if c.N < 4 {
		c.Sample("%s in every %s", mode, call)
	}
}

func c19growth(c *C) {
	pre := c.R.Intn(4)
	for i := 0; i < 4; i++ {
		e := newKsEnv(c, pre)
		size := 0
		if fi, err := os.Stat(e.path); err == nil {
			size = int(fi.Size())
		}
		lim := c.R.Intn(size + 900)
		if c.R.Intn(3) == 0 {
			lim = size + c.R.Intn(5) - 2
		}
		if lim < 0 {
			lim = 0
		}
		if i != 3 || c.N%2 == 0 {
			r := runKs(c, e.path, e.seed, pre, pre+3, lim, "ignore", "", 0)
			if len(r.acked) < 3 {
				c.Count("faults", 1)
			}
			e.judge(c, r, pre, fmt.Sprintf("a limit of %d bytes", lim))
			c.Distinct("%d %d", pre, lim)
			continue
		}
		// killed when it goes on after a write that was cut
		for k := 1; ; k++ {
			e := newKsEnv(c, pre)
			r := runKs(c, e.path, e.seed, pre, pre+3, lim, "ignore", fmt.Sprintf("write:signal=SIGKILL:when=%d", k), 0)
			if !r.injected || k > 40 {
				break
			}
			c.Count("crashes", 1)
			e.judge(c, r, pre, fmt.Sprintf("a limit of %d bytes and being killed at write %d", lim, k))
		}
		c.Distinct("%d %d kill", pre, lim)
	}
}

func c19kill(c *C) {
	e := newKsEnv(c, 2)
	r := runKs(c, e.path, e.seed, 2, 60, -1, "", "", time.Duration(15+c.R.Intn(300))*time.Millisecond)
	must, may := map[int]bool{0: true, 1: true}, map[int]bool{}
	top := 1
	for i := range r.acked {
		must[i] = true
		if i > top {
			top = i
		}
	}
	may[top+1] = true
	c.Count("acknowledged", len(r.acked))
	if r.crashed {
		c.Count("crashes", 1)
	}
	verifyKs(c, e.path, e.seed, must, may, r, "being killed")
	c.Distinct("%d %d", len(r.acked), c.N)
}

// ksFault is a storage whose writes fail.
type ksFault struct {
	keystore.Storage
	at, n int
	after bool
	fired int
}

func (f *ksFault) Write(d []byte) error {
	f.n++
	if f.n == f.at {
		f.fired++
		if f.after {
			if err := f.Storage.Write(d); err != nil {
				return err
			}
		}
		return errors.New("injected")
	}
	return f.Storage.Write(d)
}

func c19storage(c *C) {
	st := newKsStore(c)
	f := &ksFault{Storage: st.storage(), at: 1 + c.R.Intn(8), after: c.R.Intn(3) == 0}
	ks, err := keystore.NewKeyStore(f, cheapKS)
	c.Must(err, "open")
	seed := c.R.Int63()
	in := map[string]int{} // in the live store
	pass := map[int]int{}  // password of each key
	var unsure []int       // imports whose write failed after its effect
	for i := 0; i < 8; i++ {
		k := i
		if i > 2 && c.R.Intn(4) == 0 {
			k = c.R.Intn(i) // again, with another password
		}
		fired := f.fired
		pk, err := ks.ImportKey(ksSk(seed, k), ksPass(i))
		if f.fired > fired {
			c.Assert(err != nil && pk == nil, "failure-hidden", "an import whose write failed is acknowledged")
			c.Count("faults", 1)
			if f.after {
				unsure = append(unsure, k)
			}
		} else {
			c.Assert(err == nil, "import", "importing a key: %v", err)
			in[pk.String()] = k
			pass[k] = i
			unsure = nil // this write replaced what was there
		}
		// the live store
		got := ks.Keys()
		c.Assert(len(got) == len(in), "live-keys", "after %d imports (fault %d) the live store has %d keys instead of %d", i+1, f.at, len(got), len(in))
		for _, pk := range got {
			k, ok := in[pk.String()]
			c.Assert(ok, "live-keys", "the live store has another key")
			if c.R.Intn(3) == 0 {
				pk := pk
				c.Assert(ks.UnlockKey(&pk, ksPass(pass[k])) == nil, "live-unlock", "unlocking a key with its password after a failed write (fault %d)", f.at)
			}
		}
		c.Count("imports", 1)
	}
	c.Must(ks.Close(), "close")
	ks, err = keystore.NewKeyStore(st.storage(), cheapKS)
	c.Assert(err == nil, "reopen", "opening the store after a failed write: %v", err)
	n := 0
	for pks, k := range in {
		pk := pkOf(ksSk(seed, k))
		c.Assert(pk.String() == pks, "live-keys", "")
		amb := false
		for _, u := range unsure {
			amb = amb || u == k
		}
		if amb {
			n++
			continue
		}
		c.Assert(ks.UnlockKey(&pk, ksPass(pass[k])) == nil, "key-lost", "an acknowledged key is not in the store after a failed write (fault %d, after %v)", f.at, f.after)
		n++
	}
	c.Assert(len(ks.Keys()) <= n+len(unsure) && len(ks.Keys()) >= n, "key-unknown", "the store has %d keys instead of %d", len(ks.Keys()), n)
	c.Must(ks.Close(), "close")
	c.Distinct("%d %v %d", f.at, f.after, c.N)
}

// c19owners opens, closes and crashes owners one after another.
func c19owners(c *C) {
	dir := c.Dir()
	path := filepath.Join(dir, "keys")
	// other names of the same file
	c.Must(os.Symlink(".", filepath.Join(dir, "here")), "symlink")
	c.Must(os.Symlink([]string{path, "keys", "here/keys"}[c.R.Intn(3)], filepath.Join(dir, "link")), "symlink")
	name := func() string {
		p := path
		switch c.R.Intn(6) {
		case 0:
			p = filepath.Join(dir, "here", "keys")
		case 1:
			p = dir + "/.//here/./keys"
		case 2, 3:
			if _, err := os.Stat(path); err == nil {
				p = filepath.Join(dir, "link")
			}
		}
		if p != path {
			c.Count("other_names", 1)
		}
		return p
	}
	type owner struct {
		fs    *keystore.FileStorage
		ks    *keystore.KeyStore
		child *exec.Cmd
		in    io.WriteCloser
		out   *bufio.Reader
	}
	var cur *owner
	var stale []*owner
	storages := []*keystore.FileStorage{keystore.NewFileStorage(path), keystore.NewFileStorage(path)}
	nkeys := 0
	kill := func(o *owner) {
		_ = o.child.Process.Kill()
		_ = o.child.Wait()
	}
	defer func() {
		for _, o := range append(stale, cur) {
			if o != nil && o.child != nil {
				kill(o)
			}
		}
	}()
	start := func() (*owner, string) {
		o := &owner{child: exec.Command(os.Args[0], "kschild", "hold", name())}
		var err error
		o.in, err = o.child.StdinPipe()
		c.Must(err, "pipe")
		p, err := o.child.StdoutPipe()
		c.Must(err, "pipe")
		c.Must(o.child.Start(), "start")
		o.out = bufio.NewReader(p)
		l, _ := o.out.ReadString('\n')
		return o, strings.TrimSpace(l)
	}
	for i := 0; i < 26; i++ {
		switch op := c.R.Intn(11); {
		case op < 4: // open in this process
			fs := keystore.NewFileStorage(name())
			if c.R.Intn(2) == 0 {
				fs = storages[c.R.Intn(2)]
			}
			ks, err := keystore.NewKeyStore(fs, cheapKS)
			c.Logf("open %v", err)
			if cur != nil {
				c.Assert(err != nil, "two-owners", "the store is opened while it is open")
				c.Assert(errors.Is(err, keystore.ErrStorageLock), "lock-error", "opening an open store: %v", err)
				c.Count("refused", 1)
				continue
			}
			c.Assert(err == nil, "not-opened", "the store can not be opened though nobody has it open: %v", err)
			c.Assert(len(ks.Keys()) == nkeys, "keys", "%d keys instead of %d", len(ks.Keys()), nkeys)
			cur = &owner{fs: fs, ks: ks}
			c.Count("opened", 1)
		case op == 4: // open in another process
			if c.R.Intn(2) == 0 {
				continue
			}
			o, l := start()
			c.Logf("child %s", l)
			if cur != nil {
				c.Assert(strings.HasPrefix(l, "noopen"), "two-owners", "another process opens the store while it is open: %s", l)
				_ = o.in.Close()
				_ = o.child.Wait()
				c.Count("refused", 1)
				continue
			}
			c.Assert(l == "open", "not-opened", "another process can not open the store: %s", l)
			cur = o
			c.Count("opened_child", 1)
		case op < 7: // close
			if cur == nil {
				continue
			}
			c.Logf("close")
			if cur.child != nil {
				if c.R.Intn(2) == 0 {
					kill(cur)
					c.Count("crashed", 1)
				} else {
					_, _ = cur.in.Write([]byte("c"))
					l, _ := cur.out.ReadString('\n')
					c.Assert(strings.TrimSpace(l) == "closed <nil>", "close", "closing: %s", l)
					stale = append(stale, cur) // still alive
				}
			} else {
				err := cur.ks.Close()
				c.Assert(err == nil, "close", "closing: %v", err)
				if c.R.Intn(3) > 0 {
					stale = append(stale, cur)
				}
			}
			cur = nil
		case op == 7: // a former owner closes again
			if len(stale) == 0 {
				continue
			}
			o := stale[c.R.Intn(len(stale))]
			c.Logf("close again")
			if o.child != nil {
				_, _ = o.in.Write([]byte("c"))
				_, _ = o.out.ReadString('\n')
			} else {
				_ = o.ks.Close()
			}
			c.Count("closed_again", 1)
		case op == 8: // former owners are collected
			for i, o := range stale {
				if o.child == nil {
					stale[i] = &owner{child: exec.Command("true")}
					c.Must(stale[i].child.Start(), "start")
					var err error
					stale[i].in, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
					c.Must(err, "null")
					stale[i].out = bufio.NewReader(strings.NewReader(""))
				}
			}
			for k := 0; k < 2; k++ {
				runtime.GC()
				time.Sleep(time.Millisecond)
			}
			c.Logf("gc")
			c.Count("collected", 1)
		case op == 10: // opening fails because the file is damaged, and it is repaired
			if cur != nil {
				continue
			}
			was, err := os.ReadFile(path)
			had := err == nil
			if had {
				c.Must(os.Remove(path), "remove")
			}
			kind := c.R.Intn(5)
			switch kind {
			case 0:
				c.Must(os.WriteFile(path, []byte("{"), 0600), "write")
			case 1:
				c.Must(os.WriteFile(path, []byte("[1]"), 0600), "write")
			case 2:
				c.Must(os.WriteFile(path, []byte(`{"zz":{"salt":"0x00"}}`), 0600), "write")
			case 3:
				c.Must(os.Mkdir(path, 0700), "mkdir")
			case 4:
				d := append([]byte{}, was...)
				if len(d) > 2 {
					d = d[:1+c.R.Intn(len(d)-2)]
				} else {
					d = []byte("x")
				}
				c.Must(os.WriteFile(path, d, 0600), "write")
			}
			for k := 0; k <= c.R.Intn(2); k++ {
				fs := keystore.NewFileStorage(path)
				if c.R.Intn(2) == 0 {
					fs = storages[c.R.Intn(2)]
				}
				ks, err := keystore.NewKeyStore(fs, cheapKS)
				c.Logf("open damaged %d: %v", kind, err)
				c.Assert(err != nil, "damaged-opened", "a damaged file (%d) is opened", kind)
				c.Assert(!errors.Is(err, keystore.ErrStorageLock), "not-opened", "a store nobody has open is said to be locked: %v", err)
				_ = ks
			}
			if kind == 3 {
				c.Must(os.Remove(path), "remove")
			}
			if had {
				c.Must(os.WriteFile(path, was, 0600), "write")
			} else if kind != 3 {
				c.Must(os.Remove(path), "remove")
			}
			c.Count("damaged", 1)
		case op == 9: // the owner, and only the owner, can use the file
			for _, fs := range storages {
				if cur == nil || cur.fs != fs {
					p, st := c.Catch(func() {
						_, err := fs.Read()
						c.Assert(err != nil, "read-without-lock", "the file is read without having it locked")
						err = fs.Write([]byte("{}"))
						c.Assert(err != nil, "write-without-lock", "the file is written without having it locked")
					})
					c.Assert(p == nil, "storage-panic", "%v %s", p, st)
				}
			}
			if cur != nil && cur.ks != nil {
				_, err := cur.ks.NewKey([]byte("x"))
				c.Assert(err == nil, "owner-write", "the owner can not store a key: %v", err)
				nkeys++
				c.Logf("key")
			}
			for _, o := range stale {
				if o.ks != nil && c.R.Intn(3) == 0 && (cur == nil || o.fs != cur.fs) {
					_, err := o.ks.NewKey([]byte("x"))
					c.Assert(err != nil, "stale-write", "a closed store acknowledges a new key")
					c.Count("stale_writes", 1)
				}
			}
		}
	}
	// somebody can still open it
	if cur != nil {
		if cur.child != nil {
			kill(cur)
		} else {
			c.Must(cur.ks.Close(), "close")
		}
		cur = nil
	}
	ks, err := keystore.NewKeyStore(keystore.NewFileStorage(path), cheapKS)
	c.Assert(err == nil, "not-opened", "the store can not be opened at the end: %v", err)
	c.Assert(len(ks.Keys()) == nkeys, "keys", "%d keys instead of %d", len(ks.Keys()), nkeys)
	c.Must(ks.Close(), "close")
	c.Distinct("%s", strings.Join(c.logb, ";"))
	if c.N < 3 {
		c.Sample("%s", strings.Join(c.logb, "; "))
	}
}

// c19contend lets processes and goroutines compete for the file.
func c19contend(c *C) {
	path := filepath.Join(c.Dir(), "keys")
	mark := filepath.Join(c.Dir(), "mark")
	procs, gors, n := 0, 6, 4000
	if c.N%2 == 0 {
		procs, gors, n = 5, 2, 3000
	}
	var outs []string
	ch := make(chan string, procs)
	for i := 0; i < procs; i++ {
		cmd := exec.Command(os.Args[0], "kschild", "contend", path, mark, fmt.Sprint(n), fmt.Sprint(c.R.Int63()))
		go func() {
			b, err := cmd.Output()
			ch <- fmt.Sprintf("%s %v", b, err)
		}()
	}
	var holders, got, refused int32
	for g := 0; g < gors; g++ {
		r := newRand(c.R.Int63())
		c.Go(func() {
			fs := keystore.NewFileStorage(path)
			for i := 0; i < n; i++ {
				if r.Intn(2) == 0 {
					fs = keystore.NewFileStorage(path)
				}
				ks, err := keystore.NewKeyStore(fs, cheapKS)
				if err != nil {
					c.Assert(errors.Is(err, keystore.ErrStorageLock), "contend-error", "opening: %v", err)
					atomic.AddInt32(&refused, 1)
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					continue
				}
				h := atomic.AddInt32(&holders, 1)
				c.Assert(h == 1, "two-owners", "%d goroutines have the store open", h)
				f, err := os.OpenFile(mark, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0600)
				c.Assert(err == nil, "two-owners", "a process and a goroutine have the store open: %v", err)
				f.Close()
				atomic.AddInt32(&got, 1)
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
				}
				os.Remove(mark)
				atomic.AddInt32(&holders, -1)
				c.Assert(ks.Close() == nil, "contend-close", "closing")
			}
		})
	}
	c.Wait()
	for i := 0; i < procs; i++ {
		outs = append(outs, <-ch)
	}
	for _, o := range outs {
		c.Assert(strings.HasPrefix(o, "done "), "two-owners", "a process that competes for the store reports: %s", o)
		var a, b int
		_, _ = fmt.Sscanf(o, "done %d %d", &a, &b)
		c.Count("owned_by_process", a)
		c.Count("refused_process", b)
	}
	c.Count("owned", int(got))
	c.Count("refused", int(refused))
	c.Distinct("%d", c.N)
}
