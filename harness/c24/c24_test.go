//go:build go1.25

package c24

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

const uid = 54321 // the wallet runs as nobody in particular, with only a scratch home

// A copy of this program sets limits and then becomes the wallet.
func init() {
	if os.Getenv("ZV_RUN") == "" {
		return
	}
	if n, err := strconv.ParseUint(os.Getenv("ZV_FSIZE"), 10, 64); err == nil {
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	if m, err := strconv.ParseUint(os.Getenv("ZV_UMASK"), 8, 32); err == nil {
		syscall.Umask(int(m))
	}
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "ZV_") {
			env = append(env, e)
		}
	}
	err := syscall.Exec(os.Getenv("ZV_RUN"), append([]string{"bcwallet"}, os.Args[1:]...), env)
	fmt.Fprintln(os.Stderr, "cannot run the wallet:", err)
	os.Exit(97)
}

func short(s string) string {
	if len(s) > 70 {
		return fmt.Sprintf("%.40q… (%d bytes)", s, len(s))
	}
	return s
}

// result of a command.
type result struct {
	out  string
	code int
	kill bool
	line string
}

func (r result) ok() bool { return strings.Contains(r.out, "\x1b[32msuccess\x1b[0m\n") }
func (r result) show() string {
	return fmt.Sprintf("`%s` (exit %d, killed %v) says %q", r.line, r.code, r.kill, short(strings.ReplaceAll(r.out, "\x1b", "")))
}

// file is the wallet file as someone else reads it.
type file struct {
	Dev      bool   `json:"dev"`
	NodeAddr string `json:"nodeAddr"`
	Keys     []struct {
		Pkh  string `json:"publicKeyHash"`
		Priv string `json:"privateKey"`
	} `json:"keys"`
}

func pkhOf(priv *ecdsa.PrivateKey) string {
	pub, err := x509.MarshalPKIXPublicKey(&priv.PublicKey)
	if err != nil {
		return ""
	}
	a := sha256.Sum256(pub)
	b := sha256.Sum256(a[:])
	return hex.EncodeToString(b[:])
}

// purse is what one of the two wallets must hold.
type purse struct {
	dev     bool
	exists  bool
	keys    map[string]bool
	addr    string
	addrs   map[string]bool // possible instead, after an interruption
	unsure  int             // keys it may have in addition
	unsures map[string]bool
}

type world struct {
	t    *pbt.T
	home string
	pair [2]*purse // prod, dev
	stub *stub
	n    int
}

func newWorld(t *pbt.T) *world {
	w := &world{t: t, home: t.TempDir()}
	os.Chmod(w.home, 0o755)
	os.Chown(w.home, uid, uid)
	for i := range w.pair {
		w.pair[i] = &purse{dev: i == 1, keys: map[string]bool{}, addrs: map[string]bool{}, unsures: map[string]bool{}}
	}
	w.pair[0].addr = "http://coin1.levilutz.com:80"
	w.pair[1].addr = "http://localhost:8080"
	w.stub = newStub(t)
	return w
}

func (w *world) dir() string { return w.home + "/.config/basiccoin" }
func (w *world) path(dev bool) string {
	if dev {
		return w.dir() + "/wallet-dev.json"
	}
	return w.dir() + "/wallet.json"
}

type opts struct {
	stdin string
	fsize int // a limit to file sizes, -1 for none
	kill  time.Duration
	umask string
}

func (w *world) start(dev bool, o opts, args ...string) (*exec.Cmd, *bytes.Buffer) {
	bin := os.Getenv("PBT_BIN")
	if dev {
		args = append([]string{"dev"}, args...)
	}
	c := exec.Command(bin+"/worker", args...)
	c.Env = []string{"HOME=" + w.home, "USER=zv", "PATH=/usr/bin:/bin", "HTTP_PROXY=http://127.0.0.1:1", "GOMAXPROCS=2",
		"ZV_RUN=" + bin + "/bcwallet", "GOTRACEBACK=single"}
	if o.fsize >= 0 {
		c.Env = append(c.Env, fmt.Sprintf("ZV_FSIZE=%d", o.fsize))
	}
	if o.umask != "" {
		c.Env = append(c.Env, "ZV_UMASK="+o.umask)
	}
	c.Dir = w.home
	c.Stdin = strings.NewReader(o.stdin)
	b := &bytes.Buffer{}
	c.Stdout = b
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uid, Gid: uid}, Setpgid: true, Pdeathsig: syscall.SIGKILL}
	return c, b
}

func lineOf(dev bool, args []string) string {
	l := "bcwallet"
	if dev {
		l += " dev"
	}
	for _, a := range args {
		l += " " + short(a)
	}
	return l
}

func (w *world) run(dev bool, o opts, args ...string) result {
	c, b := w.start(dev, o, args...)
	var eb bytes.Buffer
	c.Stderr = &eb
	if err := c.Start(); err != nil {
		panic("infrastructure: cannot start the wallet: " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	r := result{line: lineOf(dev, args)}
	limit := 60 * time.Second
	if o.kill > 0 {
		limit = o.kill
	}
	select {
	case <-done:
	case <-time.After(limit):
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
		r.kill = true
		if o.kill == 0 {
			w.t.Fail("hang", "`%s` does not end", r.line)
		}
	}
	r.out, r.code = b.String(), c.ProcessState.ExitCode()
	if r.code == 97 {
		panic("infrastructure: " + eb.String())
	}
	if r.code == 2 && !strings.Contains(eb.String(), "panic: ") || strings.Contains(eb.String(), "runtime error") {
		w.t.Fail("crash", "`%s` crashes: %s", r.line, short(eb.String()))
	}
	return r
}

// read checks the wallet file of a purse.
func (w *world) read(p *purse, after string) {
	t := w.t
	path := w.path(p.dev)
	raw, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		if p.exists {
			t.Fail("lost", "after %s the wallet file is gone, with %d keys", after, len(p.keys))
		}
		return
	} else if err != nil {
		t.Fail("lost", "after %s the wallet file cannot be read: %v", after, err)
	}
	var f file
	if err := json.Unmarshal(raw, &f); err != nil {
		t.Fail("damaged", "after %s the wallet file (%d bytes, held %d keys) is damaged: %v", after, len(raw), len(p.keys), err)
	}
	p.exists = true
	if f.Dev != p.dev {
		t.Fail("damaged", "after %s the wallet file says dev=%v", after, f.Dev)
	}
	if f.NodeAddr != p.addr {
		if !p.addrs[f.NodeAddr] {
			t.Fail("node-addr", "after %s the wallet's node is %q, not %q", after, short(f.NodeAddr), short(p.addr))
		}
		p.addr = f.NodeAddr
	}
	p.addrs = map[string]bool{}
	got := map[string]bool{}
	for _, k := range f.Keys {
		der, err := base64.StdEncoding.DecodeString(k.Priv)
		var priv *ecdsa.PrivateKey
		if err == nil {
			priv, err = x509.ParseECPrivateKey(der)
		}
		if err != nil {
			t.Fail("damaged", "after %s the wallet's key of %s cannot be read: %v", after, k.Pkh, err)
		}
		if pkhOf(priv) != strings.ToLower(k.Pkh) {
			t.Fail("mismatch", "after %s the wallet holds for %s the key of %s", after, k.Pkh, pkhOf(priv))
		}
		if got[pkhOf(priv)] {
			t.Fail("repeated", "after %s the wallet holds the key of %s twice", after, k.Pkh)
		}
		got[pkhOf(priv)] = true
	}
	for k := range p.keys {
		if !got[k] {
			t.Fail("lost", "after %s the key of %s is lost; %d of %d are left", after, k, len(got), len(p.keys))
		}
	}
	for k := range got {
		if p.keys[k] {
			continue
		}
		if !p.unsures[k] {
			if p.unsure == 0 {
				t.Fail("foreign", "after %s the wallet holds the key of %s, never generated nor imported", after, k)
			}
			p.unsure--
		}
		p.keys[k] = true
	}
	p.unsure, p.unsures = 0, map[string]bool{}
}

// check reads both wallets and who may read them.
func (w *world) check(after string) {
	w.read(w.pair[0], after)
	w.read(w.pair[1], after)
	filepath.WalkDir(w.home, func(path string, d os.DirEntry, err error) error {
		if err != nil || !d.Type().IsRegular() || strings.HasPrefix(path, w.home+"/given") {
			return nil
		}
		if i, err := d.Info(); err == nil && i.Mode().Perm()&0o077 != 0 && !d.IsDir() {
			w.t.Fail("readable", "after %s others may access %s (%v)", after, strings.TrimPrefix(path, w.home), i.Mode())
		}
		return nil
	})
}

// shown gives the address a generate shows, if any.
func shown(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if len(l) == 64 {
			if _, err := hex.DecodeString(l); err == nil {
				return l
			}
		}
	}
	return ""
}

type keyOf struct {
	pkh string
	der []byte
}

func key(n, curve int) keyOf {
	k := gen.CurveKey(n, curve)
	der, err := x509.MarshalECPrivateKey(k.Priv)
	if err != nil {
		panic(err)
	}
	return keyOf{hex.EncodeToString(dataOf(k.Pkh)), der}
}

func dataOf(h core.HashT) []byte { d := h.Data(); return d[:] }

func walletJSON(dev bool, addr string, keys []keyOf) []byte {
	ks := []map[string]any{}
	for _, k := range keys {
		ks = append(ks, map[string]any{"publicKeyHash": k.pkh, "privateKey": base64.StdEncoding.EncodeToString(k.der)})
	}
	b, _ := json.Marshal(map[string]any{"dev": dev, "nodeAddr": addr, "keys": ks})
	return b
}

// give writes a file for an import.
func (w *world) give(data []byte) string {
	w.n++
	p := fmt.Sprintf("%s/given%d.json", w.home, w.n)
	if err := os.WriteFile(p, data, 0o644); err != nil {
		panic(err)
	}
	return p
}

// imported draws a file to import: its path, its keys if good, a description.
func (w *world) imported(by *purse) (string, map[string]bool, string) {
	t := w.t
	var ks []keyOf
	m := map[string]bool{}
	n, pool := t.Range(0, 5), 12
	if t.Chance(8) {
		n, pool = t.Range(10, 100), 110
	}
	for range n {
		k := key(t.Intn(pool), t.Weighted(8, 1, 1))
		ks = append(ks, k)
		m[k.pkh] = true
	}
	good := walletJSON(t.Bool(), "http://x", ks)
	switch t.Weighted(8, 1, 1, 1, 1, 1, 1) {
	case 1: // cut
		return w.give(good[:t.Intn(len(good))]), nil, "a cut file"
	case 2: // a wrong address
		c := t.Intn(3)
		k := keyOf{key(13, c).pkh, key(14, c).der}
		if t.Bool() {
			b, _ := hex.DecodeString(key(14, c).pkh)
			b[t.Intn(32)] ^= 1 << t.Intn(8)
			k.pkh = hex.EncodeToString(b)
		}
		ks = append(ks, k)
		if i := t.Intn(len(ks)); i < len(ks)-1 {
			ks[i], ks[len(ks)-1] = ks[len(ks)-1], ks[i]
		}
		return w.give(walletJSON(false, "", ks)), nil, "a file with a key of another address"
	case 3:
		ks = append(ks, keyOf{key(13, 0).pkh, key(13, 0).der[:t.Intn(100)]})
		ks[0], ks[len(ks)-1] = ks[len(ks)-1], ks[0]
		return w.give(walletJSON(false, "", ks)), nil, "a file with a broken key"
	case 4:
		return w.home + "/given-none", nil, "no file"
	case 5:
		return w.give([]byte(pbt.Pick(t, []string{"", "null", "{}", "[]", "7", `{"keys":null}`, `{"keys":[null]}`, `{"keys":[{}]}`, "\x00"}))), map[string]bool{}, "an odd file"
	case 6: // the wallet itself or the other one
		d := t.Intn(2)
		m := map[string]bool{}
		for k := range w.pair[d].keys {
			m[k] = true
		}
		if !w.pair[d].exists && w.pair[d] != by { // its own would be created first
			return w.path(d == 1), nil, "a wallet that does not exist"
		}
		return w.path(d == 1), m, "a wallet's own file"
	}
	return w.give(good), m, fmt.Sprintf("a file with %d keys", len(m))
}

// where draws an address to connect to, and whether a node is there.
func (w *world) where(dev bool) (string, bool) {
	t := w.t
	good := w.stub.url + "/prod"
	if dev {
		good = w.stub.url + "/dev"
	}
	if t.Bool() {
		good += "/"
	}
	switch t.Weighted(6, 1, 1, 1) {
	case 1:
		return "http://127.0.0.1:1", false
	case 2:
		if dev {
			return w.stub.url + "/prod", false
		}
		return w.stub.url + "/dev", false
	case 3:
		return pbt.Pick(t, []string{"", "x", "http://", "\x01", w.stub.url, "ftp://127.0.0.1"}), false
	}
	return good, true
}

func runKeys(t *pbt.T) {
	w := newWorld(t)
	faults, kinds := 0, map[string]bool{}
	if t.Chance(15) { // a file others could read, from before
		os.MkdirAll(w.dir(), 0o755)
		k := key(0, 0)
		os.WriteFile(w.path(false), walletJSON(false, "http://127.0.0.1:1", []keyOf{k}), 0o600)
		os.Chown(w.home+"/.config", uid, uid)
		os.Chown(w.dir(), uid, uid)
		os.Chown(w.path(false), uid, uid)
		w.pair[0].exists, w.pair[0].addr, w.pair[0].keys[k.pkh] = true, "http://127.0.0.1:1", true
		t.Note("a wallet with one key exists")
	}
	umask := pbt.Pick(t, []string{"", "0", "077", "022", "0177"})
	if umask == "0177" {
		umask = "" // directories would be unusable
	}
	t.Steps(2, 8, 20, func(int) {
		d := t.Intn(2)
		p := w.pair[d]
		o := opts{fsize: -1, umask: umask}
		fault := ""
		switch t.Weighted(6, 2, 2, 1) {
		case 1:
			size := 0
			if i, err := os.Stat(w.path(p.dev)); err == nil {
				size = int(i.Size())
			}
			o.fsize = t.Intn(size + 500)
			fault = fmt.Sprintf(", with files limited to %d bytes", o.fsize)
		case 2:
			o.kill = time.Duration(t.Range(1, 12000)) * time.Microsecond
			fault = fmt.Sprintf(", killed after %v", o.kill)
		case 3:
			if _, err := os.Stat(w.dir()); err == nil {
				os.Chmod(w.dir(), 0o500)
				defer os.Chmod(w.dir(), 0o700)
				fault = ", with the directory write-protected"
			}
		}
		if fault != "" {
			faults++
		}
		var r result
		switch t.Weighted(5, 4, 2, 2) {
		case 0:
			args := []string{"generate"}
			pre := ""
			if t.Chance(30) {
				pre = strings.Repeat(string("0123456789abcdef"[t.Intn(16)]), t.Range(1, 2))
				args = append(args, pre)
			}
			r = w.run(p.dev, o, args...)
			t.Note("%s%s", r.line, fault)
			a := shown(r.out)
			if a != "" {
				if !strings.HasPrefix(a, pre) {
					t.Fail("prefix", "`%s` gives %s", r.line, a)
				}
				p.keys[a] = true
			} else if fault == "" {
				t.Fail("failed", "%s, without an address", r.show())
			} else {
				p.unsure = 1
			}
			if fault == "" && !r.ok() {
				t.Fail("failed", "%s", r.show())
			}
			if fault == "" {
				p.exists = true
			}
			kinds["generate"] = true
		case 1:
			path, ks, what := w.imported(p)
			r = w.run(p.dev, o, "import", path)
			t.Note("bcwallet%s import %s%s: %v", map[bool]string{true: " dev"}[p.dev], what, fault, r.ok())
			if ks == nil && r.ok() {
				t.Fail("import", "importing %s succeeds", what)
			}
			if ks != nil && !r.ok() && fault == "" && what != "an odd file" {
				t.Fail("failed", "importing %s: %s", what, r.show())
			}
			for k := range ks {
				if r.ok() {
					p.keys[k] = true
				} else {
					p.unsures[k] = true
				}
			}
			kinds["import"] = true
		case 2:
			a, good := w.where(p.dev)
			r = w.run(p.dev, o, "connect", a)
			t.Note("bcwallet%s connect %s%s: %v", map[bool]string{true: " dev"}[p.dev], short(a), fault, r.ok())
			if r.ok() {
				if !good {
					t.Fail("connect", "connecting to %q, where no node of this network is, succeeds", short(a))
				}
				p.addr = a
			} else if good {
				if fault == "" {
					t.Fail("failed", "%s", r.show())
				}
				p.addrs[a] = true
			}
			kinds["connect"] = true
		case 3:
			args := pbt.Pick(t, [][]string{{"version"}, {"get-config-path"}, {"help"}, {}, {"nonsense"}, {"import"}, {"connect"}, {"generate", "help"}, {"import", "help"}, {"balance"}, {"utxos"}, {"send"}, {"consolidate"}})
			r = w.run(p.dev, o, args...)
			t.Note("%s%s", r.line, fault)
			kinds["other"] = true
			if fault == "" && len(args) > 0 {
				want := ""
				switch args[0] {
				case "version":
					want = map[bool]string{true: "v0.0.0-dev\n", false: "v0.0.0\n"}[p.dev]
				case "get-config-path":
					want = w.path(p.dev) + "\n"
				}
				if !strings.Contains(r.out, want) {
					t.Fail("output", "%s", r.show())
				}
			}
		}
		if strings.Contains(fault, "write-protected") {
			os.Chmod(w.dir(), 0o700)
		}
		w.check("`" + r.line + "`" + fault)
		if fault != "" && t.Chance(70) {
			// It can still be used
			r := w.run(p.dev, opts{fsize: -1, umask: umask}, "generate")
			a := shown(r.out)
			if !r.ok() || a == "" {
				t.Fail("unusable", "after %s%s: %s", r.line, fault, r.show())
			}
			p.exists = true
			p.keys[a] = true
			w.check("a generate after" + fault)
		}
	})
	if len(w.pair[0].keys)+len(w.pair[1].keys) > 1 && len(kinds) > 1 {
		t.NonTrivial()
	}
	if faults > 0 {
		t.Label("interrupted")
	}
}

// runOverlap has commands at the same time.
func runOverlap(t *pbt.T) {
	w := newWorld(t)
	umask := ""
	rounds := t.Range(1, 2)
	for i := range rounds {
		type job struct {
			p    *purse
			args []string
			keys map[string]bool
			r    result
			kill time.Duration
			at   time.Duration
			node string
		}
		var jobs []*job
		solo := t.Intn(3)
		node := [2]string{}
		for range t.Range(2, 7) {
			d := t.Intn(2)
			if solo < 2 {
				d = solo
			}
			j := &job{p: w.pair[d]}
			switch t.Weighted(5, 3, 2, 1) {
			case 0:
				j.args = []string{"generate"}
			case 1: // takes a while
				j.args = []string{"generate", fmt.Sprintf("%03x", t.Intn(4096))}
			case 2:
				var ks []keyOf
				j.keys = map[string]bool{}
				for range t.Range(1, 4) {
					k := key(t.Intn(20), 0)
					ks = append(ks, k)
					j.keys[k.pkh] = true
				}
				j.args = []string{"import", w.give(walletJSON(false, "", ks))}
			case 3:
				if node[d] == "" {
					node[d] = w.stub.url + []string{"/prod", "/dev"}[d]
					j.node = node[d]
					j.args = []string{"connect", j.node}
				} else {
					j.args = []string{"version"}
				}
			}
			if t.Chance(15) {
				j.kill = time.Duration(t.Range(1, 20000)) * time.Microsecond
			}
			j.at = time.Duration(t.Intn(4000)) * time.Microsecond
			jobs = append(jobs, j)
			t.Note("%s after %v, killed after %v", strings.ReplaceAll(lineOf(j.p.dev, j.args), w.home, "~"), j.at, j.kill)
		}
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(j.at)
				c, b := w.start(j.p.dev, opts{fsize: -1, umask: umask}, j.args...)
				ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
				defer cancel()
				if j.kill > 0 {
					time.AfterFunc(j.kill, cancel)
				}
				if err := c.Start(); err != nil {
					panic("infrastructure: " + err.Error())
				}
				done := make(chan error, 1)
				go func() { done <- c.Wait() }()
				select {
				case <-done:
				case <-ctx.Done():
					syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
					<-done
					j.r.kill = true
				}
				j.r.out, j.r.code, j.r.line = b.String(), c.ProcessState.ExitCode(), lineOf(j.p.dev, j.args)
			}()
		}
		wg.Wait()
		for _, j := range jobs {
			if a := shown(j.r.out); a != "" && j.args[0] == "generate" {
				j.p.keys[a] = true
			} else if j.args[0] == "generate" {
				j.p.unsure++
			}
			for k := range j.keys {
				if j.r.ok() {
					j.p.keys[k] = true
				} else {
					j.p.unsures[k] = true
				}
			}
			if j.node != "" {
				if j.r.ok() {
					j.p.addr = j.node
				} else {
					j.p.addrs[j.node] = true
				}
			}
			if j.kill == 0 && !j.r.ok() {
				t.Fail("failed", "with other commands at the same time, %s", j.r.show())
			}
		}
		w.check(fmt.Sprintf("%d commands at once (round %d)", len(jobs), i))
	}
	t.NonTrivial()
}

// -- payments

type coin struct {
	utxo  core.Utxo
	owner core.HashT
	spent bool // by a pending transaction
}

// stub is a node, as the wallet sees it.
type stub struct {
	t      *pbt.T
	url    string
	mu     sync.Mutex
	w      *model.World
	coins  []*coin
	height uint64
	posts  []core.Tx
	raw    []string
	answer int // to posts: 0 accepts, 1 refuses, 2 names another id, 3 hangs up, 4 refuses but names the id, 5 answers garbage
	shape  uint64 // of the answer
	asked  []string
	wrong  string
	facts  map[string]map[string]any // by path and hash, for look-ups
	broken bool
	fault  *fault
}

// fault damages the answer to the next request for a path.
type fault struct {
	path    string // behind /prod or /dev
	kind    int
	at      uint64
	applied bool
	was, is string
}

var faultKinds = []string{"status", "cut", "hash", "number", "text", "dropped", "empty"}

var (
	hashRe   = regexp.MustCompile(`[0-9a-f]{64}`)
	numberRe = regexp.MustCompile(`(?m)^[0-9]+$|:[0-9]+`)
)

func (f *fault) serve(rw http.ResponseWriter, rec *httptest.ResponseRecorder) {
	body := rec.Body.String()
	f.was = body
	status := rec.Code
	pick := func(re *regexp.Regexp) []int {
		ls := re.FindAllStringIndex(body, -1)
		if len(ls) == 0 {
			return nil
		}
		return ls[f.at%uint64(len(ls))]
	}
	v := f.at >> 8
	replace := func(l []int, by string) { body = body[:l[0]] + by + body[l[1]:] }
	switch faultKinds[f.kind] {
	case "status":
		status = []int{400, 401, 404, 405, 422, 500, 503}[f.at%7]
	case "hash":
		l := pick(hashRe)
		if l == nil {
			return
		}
		h := body[l[0]:l[1]]
		replace(l, []string{h[1:], h[2:], h[:63], h + "0", h + "00", "g" + h[1:], h[:62] + "-1", "", " " + h[1:]}[v%9])
	case "number":
		l := pick(numberRe)
		if l == nil {
			return
		}
		pre, n := "", body[l[0]:l[1]]
		if n[0] == ':' {
			pre, n = ":", n[1:]
		}
		replace(l, pre+[]string{"-" + n, n + ".5", "18446744073709551616", n + "x", "x", "\"" + n + "\"", n + "e3", "[" + n + "]"}[v%8])
		if n == "0" && body[l[0]+len(pre):] != "" && strings.HasPrefix(body[l[0]+len(pre):], "-0") {
			return // the same number
		}
	case "text":
		body = []string{"<html>bad gateway</html>", "[", "[]", "nil", "{\"", "5 6", "\"\""}[f.at%7]
	case "empty":
		body = ""
	case "cut", "dropped":
		f.applied = true
		if len(body) == 0 || faultKinds[f.kind] == "dropped" {
			panic(http.ErrAbortHandler)
		}
		rw.Header().Set("Content-Length", fmt.Sprint(len(body)))
		io.WriteString(rw, body[:f.at%uint64(len(body))])
		rw.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	}
	f.applied = true
	f.is = body
	rw.WriteHeader(status)
	io.WriteString(rw, body)
}

func (s *stub) serve(mux *http.ServeMux, rw http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	f := s.fault
	hit := f != nil && (!f.applied || faultKinds[f.kind] == "dropped") && r.Method == "GET" && strings.HasSuffix(r.URL.Path, f.path)
	s.mu.Unlock()
	if !hit { // a dropped request is asked again by the HTTP client, and dropped again
		mux.ServeHTTP(rw, r)
		return
	}
	rec := httptest.NewRecorder()
	mux.ServeHTTP(rec, r)
	f.serve(rw, rec)
	if !f.applied {
		io.WriteString(rw, f.was)
	}
}

func newStub(t *pbt.T) *stub {
	s := &stub{t: t, w: model.NewWorld(core.ProdNetParams(), func() uint64 { return 0 })}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("infrastructure: " + err.Error())
	}
	s.url = "http://" + ln.Addr().String()
	mux := http.NewServeMux()
	for _, pre := range []string{"/prod", "/dev"} {
		v := map[string]string{"/prod": "v0.0.0", "/dev": "v0.0.0-dev"}[pre]
		mux.HandleFunc(pre+"/version", func(rw http.ResponseWriter, r *http.Request) { io.WriteString(rw, v) })
		mux.HandleFunc(pre+"/wallet/head/height", func(rw http.ResponseWriter, r *http.Request) {
			s.mu.Lock()
			defer s.mu.Unlock()
			fmt.Fprint(rw, s.height)
		})
		mux.HandleFunc(pre+"/wallet/balance", s.balance)
		mux.HandleFunc(pre+"/wallet/utxos", s.utxos)
		mux.HandleFunc(pre+"/wallet/tx", func(rw http.ResponseWriter, r *http.Request) {
			if r.Method == "GET" && s.facts != nil {
				s.lookup(rw, r)
			} else {
				s.post(rw, r)
			}
		})
		for _, path := range []string{"tx/confirms", "tx/block", "merkle", "block", "richlist"} {
			mux.HandleFunc(pre+"/wallet/"+path, s.lookup)
		}
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { s.serve(mux, rw, r) }), ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(ln)
	t.Cleanup(func() { srv.Close() })
	return s
}

func pkhsOf(r *http.Request) (map[string]bool, bool) {
	m := map[string]bool{}
	for _, s := range r.URL.Query()["publicKeyHash"] {
		if b, err := hex.DecodeString(s); err != nil || len(b) != 32 {
			return nil, false
		}
		m[strings.ToLower(s)] = true
	}
	return m, len(m) > 0
}

func (s *stub) balance(rw http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	m, ok := pkhsOf(r)
	if !ok {
		rw.WriteHeader(400)
		return
	}
	out := map[string]uint64{}
	for k := range m {
		out[k] = 0
	}
	for _, c := range s.coins {
		if k := hex.EncodeToString(dataOf(c.owner)); m[k] {
			out[k] += c.utxo.Value
		}
	}
	json.NewEncoder(rw).Encode(map[string]any{"balances": out})
}

func (s *stub) utxos(rw http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	m, ok := pkhsOf(r)
	if !ok {
		rw.WriteHeader(400)
		return
	}
	ex := r.URL.Query().Get("excludeMempool") == "true"
	out := []any{}
	for _, c := range s.coins {
		if k := hex.EncodeToString(dataOf(c.owner)); m[k] && !(ex && c.spent) {
			out = append(out, map[string]any{"pkh": k, "utxo": map[string]any{
				"txId": hex.EncodeToString(dataOf(c.utxo.TxId)), "ind": c.utxo.Ind, "value": c.utxo.Value}})
		}
	}
	json.NewEncoder(rw).Encode(map[string]any{"utxos": out})
}

// what the answers call things
var lookups = map[string][3]string{ // command: path, key of the query, key of the answer
	"tx-confirms": {"tx/confirms", "txId", "confirms"},
	"tx-block":    {"tx/block", "txId", "includedBlocks"},
	"get-tx":      {"tx", "txId", "txs"},
	"get-merkle":  {"merkle", "merkleId", "merkles"},
	"get-block":   {"block", "blockId", "blocks"},
	"rich-list":   {"richlist", "maxLen", "richList"},
}

func (s *stub) lookup(rw http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	path := r.URL.Path[strings.Index(r.URL.Path, "/wallet/")+8:]
	if s.broken || r.Method != "GET" {
		rw.WriteHeader(500)
		return
	}
	for _, l := range lookups {
		if l[0] != path {
			continue
		}
		out := map[string]any{}
		asked := r.URL.Query()[l[1]]
		if path == "richlist" {
			n, err := strconv.ParseUint(strings.Join(asked, ","), 10, 64)
			if err != nil {
				rw.WriteHeader(400)
				return
			}
			for _, k := range s.richest() {
				if uint64(len(out)) < n {
					out[k] = s.facts[path][k]
				}
			}
		}
		for _, k := range asked {
			if v, ok := s.facts[path][strings.ToLower(k)]; ok {
				out[strings.ToLower(k)] = v
			}
		}
		json.NewEncoder(rw).Encode(map[string]any{l[2]: out})
	}
}

// richest lists the holders, richest first (balances differ).
func (s *stub) richest() []string {
	var ks []string
	for k := range s.facts["richlist"] {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return s.facts["richlist"][ks[i]].(uint64) > s.facts["richlist"][ks[j]].(uint64)
	})
	return ks
}

func plain(s string) string {
	for _, c := range []string{"\x1b[31m", "\x1b[32m", "\x1b[33m", "\x1b[0m"} {
		s = strings.ReplaceAll(s, c, "")
	}
	return s
}

// runFaulty has one answer of the node damaged in each command.
func runFaulty(t *pbt.T) {
	w, _ := newPayer(t)
	hash := func() string {
		h := t.Hash32()
		return hex.EncodeToString(h[:])
	}
	h := hash()
	w.stub.facts = map[string]map[string]any{
		"tx/confirms": {h: t.Draw(1000)}, "tx/block": {h: hash()}, "merkle": {h: map[string]any{"lChild": hash(), "rChild": hash()}},
		"block": {h: map[string]any{"prevBlockId": hash(), "merkleRoot": hash(), "target": hash(), "noise": hash(), "nonce": t.U64(), "minedTime": t.U64()}},
		"tx": {h: map[string]any{"isCoinbase": t.Bool(), "minBlock": t.U64(), "inputs": []any{map[string]any{"utxo": map[string]any{"txId": hash(), "ind": t.U64(), "value": t.U64()},
			"publicKey": "AAAA", "signature": "AAAA"}}, "outputs": []any{map[string]any{"value": t.U64(), "publicKeyHash": hash()}}}},
		"richlist": {h: 1 + t.Draw(1000)},
	}
	hits, kinds := 0, map[int]bool{}
	t.Steps(2, 5, 10, func(int) {
		var args []string
		f := &fault{kind: t.Intn(len(faultKinds)), at: t.U64()}
		switch t.Weighted(3, 2, 4, 2, 5) {
		case 0:
			args = []string{"balance"}
			f.path = "/wallet/balance"
			if t.Bool() {
				args = append(args, hex.EncodeToString(dataOf(pbt.Pick(t, w.keys).Pkh)))
			}
		case 1:
			args = []string{"utxos"}
			f.path = "/wallet/utxos"
		case 2:
			_, sum := w.avail()
			args = []string{"send", fmt.Sprintf("%s:%d", hash(), 1+t.Draw(sum/2+1))}
			f.path = pbt.Pick(t, []string{"/wallet/utxos", "/wallet/head/height"})
		case 3:
			args = []string{"consolidate"}
			f.path = pbt.Pick(t, []string{"/wallet/utxos", "/wallet/head/height"})
		default:
			cmd := pbt.Pick(t, []string{"tx-confirms", "tx-block", "get-tx", "get-merkle", "get-block", "rich-list"})
			args = []string{cmd, h}
			if cmd == "rich-list" {
				args[1] = "5"
			}
			f.path = "/wallet/" + lookups[cmd][0]
		}
		if t.Chance(10) {
			f.path = "/version"
		}
		w.stub.mu.Lock()
		w.stub.fault = f
		w.stub.mu.Unlock()
		r := w.run(w.p.dev, opts{fsize: -1, stdin: "y\n"}, args...)
		posts := w.stub.taken()
		w.stub.mu.Lock()
		w.stub.fault = nil
		w.stub.mu.Unlock()
		if !f.applied {
			for _, tx := range posts {
				w.done(tx)
			}
			return
		}
		t.Note("%s, the answer from %s damaged (%s %d: %s): %v", r.line, f.path, faultKinds[f.kind], f.at, short(f.is), r.ok())
		hits++
		kinds[f.kind] = true
		if len(posts) > 0 {
			t.Fail("faulty-posted", "the node's answer from %s is damaged (%s) and `%s` posts a transaction", f.path, faultKinds[f.kind], r.line)
		}
		if r.ok() || strings.Contains(r.out, "total\t") {
			t.Fail("faulty-shown", "the node's answer from %s is damaged (%s: %s) and %s", f.path, faultKinds[f.kind], short(f.is), r.show())
		}
	})
	w.check("damaged answers")
	if hits > 1 && len(kinds) > 1 {
		t.NonTrivial()
	}
}

// runAsk has look-ups.
func runAsk(t *pbt.T) {
	w := newWorld(t)
	dev := t.Bool()
	p := w.pair[map[bool]int{false: 0, true: 1}[dev]]
	p.addr, p.exists = w.stub.url+map[bool]string{false: "/prod", true: "/dev"}[dev], true
	os.MkdirAll(w.dir(), 0o700)
	os.Chown(w.home+"/.config", uid, uid)
	os.Chown(w.dir(), uid, uid)
	os.WriteFile(w.path(dev), walletJSON(dev, p.addr, nil), 0o600)
	os.Chown(w.path(dev), uid, uid)
	hash := func() string {
		h := t.Hash32()
		return hex.EncodeToString(h[:])
	}
	var pool []string
	for range t.Range(2, 8) {
		pool = append(pool, hash())
	}
	facts := map[string]map[string]any{}
	num := func() uint64 {
		switch t.Weighted(3, 1, 1) {
		case 1:
			return t.Draw(3)
		case 2:
			return t.U64()
		}
		return t.Draw(1 << t.Range(1, 40))
	}
	for cmd, l := range lookups {
		_ = cmd
		facts[l[0]] = map[string]any{}
	}
	used := map[uint64]bool{}
	for _, h := range pool {
		if t.Chance(70) {
			facts["tx/confirms"][h] = num()
		}
		if t.Chance(70) {
			facts["tx/block"][h] = hash()
		}
		if t.Chance(70) {
			ins, outs := []any{}, []any{}
			for range t.Intn(3) {
				ins = append(ins, map[string]any{"utxo": map[string]any{"txId": hash(), "ind": num(), "value": num()},
					"publicKey": base64.StdEncoding.EncodeToString(t.Bytes(t.Intn(100))), "signature": base64.StdEncoding.EncodeToString(t.Bytes(t.Intn(80)))})
			}
			for range t.Range(1, 3) {
				outs = append(outs, map[string]any{"value": num(), "publicKeyHash": hash()})
			}
			facts["tx"][h] = map[string]any{"isCoinbase": t.Bool(), "minBlock": num(), "inputs": ins, "outputs": outs}
		}
		if t.Chance(70) {
			facts["merkle"][h] = map[string]any{"lChild": hash(), "rChild": hash()}
		}
		if t.Chance(70) {
			facts["block"][h] = map[string]any{"prevBlockId": hash(), "merkleRoot": hash(), "target": hash(), "noise": hash(), "nonce": num(), "minedTime": num()}
		}
		if v := num(); !used[v] && t.Chance(80) {
			facts["richlist"][h], used[v] = v, true
		}
	}
	w.stub.mu.Lock()
	w.stub.facts = facts
	w.stub.mu.Unlock()
	t.Note("%d hashes", len(pool))
	t.Steps(2, 6, 12, func(int) {
		cmd := pbt.Pick(t, []string{"tx-confirms", "tx-block", "get-tx", "get-merkle", "get-block", "rich-list"})
		l := lookups[cmd]
		args := []string{cmd}
		bad := false
		want := map[string]any{}
		unknown := map[string]bool{}
		if cmd == "rich-list" {
			n := 10
			switch t.Weighted(3, 3, 1) {
			case 1:
				n = t.Intn(10)
				args = append(args, fmt.Sprint(n))
			case 2:
				bad = true
				args = append(args, pbt.Pick(t, []string{"x", "-1", "", "1.5", "18446744073709551616"}))
			}
			for i, k := range w.stub.richest() {
				if i < n {
					want[k] = facts["richlist"][k]
				}
			}
		} else {
			for range t.Range(1, 6) {
				h := pbt.Pick(t, pool)
				if t.Chance(15) {
					h = hash()
				}
				if v, ok := facts[l[0]][h]; ok {
					want[h] = v
				} else {
					unknown[h] = true
				}
				if t.Chance(10) {
					h = strings.ToUpper(h)
				}
				if t.Chance(4) {
					h, bad = pbt.Pick(t, []string{"", "x", h[:63], h + "00", "g" + h[1:], h + "&x=1"}), true
				}
				args = append(args, h)
			}
		}
		broken := t.Chance(8)
		w.stub.mu.Lock()
		w.stub.broken = broken
		w.stub.mu.Unlock()
		r := w.run(dev, opts{fsize: -1}, args...)
		t.Note("%s (malformed %v, node broken %v): %v", r.line, bad, broken, r.ok())
		if bad || broken || len(want) == 0 && cmd == "rich-list" {
			if r.ok() {
				t.Fail("asked", "malformed %v, node broken %v, and %s", bad, broken, r.show())
			}
			return
		}
		if !r.ok() {
			t.Fail("asked", "%s", r.show())
		}
		out := plain(r.out)
		got := map[string]any{}
		gotUnknown := map[string]bool{}
		var last uint64
		first := true
		switch cmd {
		case "tx-confirms", "rich-list":
			for _, line := range strings.Split(out, "\n") {
				f := strings.Split(line, "\t")
				if len(f) != 2 {
					continue
				}
				if v, err := strconv.ParseUint(f[1], 10, 64); err == nil {
					if !first && v > last {
						t.Fail("asked", "%s, not in descending order", r.show())
					}
					if _, ok := got[f[0]]; ok {
						t.Fail("asked", "%s, with %s twice", r.show(), f[0])
					}
					got[f[0]], last, first = v, v, false
				} else {
					gotUnknown[f[0]] = true
				}
			}
		case "tx-block":
			ls := strings.Split(out, "\n")
			for i, line := range ls {
				if len(line) == 64 && i+1 < len(ls) {
					got[line] = strings.TrimSpace(ls[i+1])
				} else if f := strings.Split(line, "\t"); len(f) == 2 && len(f[0]) == 64 {
					gotUnknown[f[0]] = true
				}
			}
		default:
			rest := out
			for {
				i := strings.Index(rest, ":\n{")
				if i < 64 {
					break
				}
				h := rest[i-64 : i]
				d := json.NewDecoder(strings.NewReader(rest[i+2:]))
				d.UseNumber()
				var v any
				if err := d.Decode(&v); err != nil {
					t.Fail("asked", "%s, unreadable: %v", r.show(), err)
				}
				got[h] = v
				rest = rest[i+2+int(d.InputOffset()):]
			}
			for _, line := range strings.Split(rest, "\n") {
				if f := strings.Split(line, "\t"); len(f) == 2 && len(f[0]) == 64 {
					gotUnknown[f[0]] = true
				}
			}
		}
		g, _ := json.Marshal(norm(got))
		e, _ := json.Marshal(norm(want))
		if !bytes.Equal(g, e) {
			t.Fail("asked", "the node knows %s; %s, showing %s", e, r.show(), g)
		}
		g, _ = json.Marshal(gotUnknown)
		e, _ = json.Marshal(unknown)
		if !bytes.Equal(g, e) {
			t.Fail("asked", "the node does not know %s; %s", e, r.show())
		}
	})
	w.check("look-ups")
	t.NonTrivial()
}

// norm brings values to a comparable form.
func norm(v any) any {
	b, _ := json.Marshal(v)
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var out any
	d.Decode(&out)
	return out
}

func hashOf(s string) core.HashT {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 32 {
		panic(fmt.Sprintf("%q is no hash", s))
	}
	return core.NewHashTFromBytes(b)
}

type txJSON struct {
	IsCoinbase bool   `json:"isCoinbase"`
	MinBlock   uint64 `json:"minBlock"`
	Inputs     []struct {
		Utxo struct {
			TxId  string `json:"txId"`
			Ind   uint64 `json:"ind"`
			Value uint64 `json:"value"`
		} `json:"utxo"`
		PublicKey []byte `json:"publicKey"`
		Signature []byte `json:"signature"`
	} `json:"inputs"`
	Outputs []struct {
		Value uint64 `json:"value"`
		Pkh   string `json:"publicKeyHash"`
	} `json:"outputs"`
}

func (s *stub) post(rw http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if r.Method != "POST" {
		rw.WriteHeader(400)
		return
	}
	body, _ := io.ReadAll(r.Body)
	s.raw = append(s.raw, string(body))
	var j txJSON
	var tx core.Tx
	err := json.Unmarshal(body, &j)
	func() {
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Errorf("%v", x)
			}
		}()
		tx = core.Tx{IsCoinbase: j.IsCoinbase, MinBlock: j.MinBlock}
		for _, i := range j.Inputs {
			tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: core.Utxo{TxId: hashOf(i.Utxo.TxId), Ind: i.Utxo.Ind, Value: i.Utxo.Value},
				PublicKey: i.PublicKey, Signature: i.Signature})
		}
		for _, o := range j.Outputs {
			tx.Outputs = append(tx.Outputs, core.TxOut{Value: o.Value, PublicKeyHash: hashOf(o.Pkh)})
		}
	}()
	if err != nil {
		s.wrong = fmt.Sprintf("the posted %s is no transaction: %v", short(string(body)), err)
		rw.WriteHeader(422)
		return
	}
	s.posts = append(s.posts, tx)
	right := hex.EncodeToString(dataOf(model.Tid(tx)))
	switch s.answer {
	case 1:
		rw.WriteHeader([]int{400, 400, 422, 500, 503}[s.shape%5])
	case 2: // another id
		d := append([]byte{}, dataOf(model.Tid(tx))...)
		switch s.shape % 4 {
		case 0:
			d = make([]byte, 32)
		case 1:
			d[(s.shape>>8)%32] ^= 1 << ((s.shape >> 16) % 8)
		case 2:
			h := model.Uint64Hash(s.shape)
			d = h[:]
		case 3:
			d[0], d[31] = ^d[0], ^d[31]
		}
		fmt.Fprint(rw, hex.EncodeToString(d))
	case 3:
		panic(http.ErrAbortHandler)
	case 4:
		rw.WriteHeader([]int{400, 401, 403, 404, 405, 422, 500, 502, 503}[s.shape%9])
		fmt.Fprint(rw, right)
	case 5:
		io.WriteString(rw, []string{"", right[:63], right[:62], right + "00", "ok", "<html></html>", "{}", "null", right[1:] + "g"}[s.shape%9])
	default:
		id := model.Tid(tx)
		fmt.Fprint(rw, hex.EncodeToString(dataOf(id)))
	}
}

func (s *stub) taken() []core.Tx {
	s.mu.Lock()
	defer s.mu.Unlock()
	ps := s.posts
	s.posts = nil
	if s.wrong != "" {
		s.t.Fail("posted", "%s", s.wrong)
	}
	if len(s.raw) != len(ps) {
		s.t.Fail("posted", "%d requests with %d transactions", len(s.raw), len(ps))
	}
	s.raw = nil
	return ps
}

// payer is a wallet with coins at the stub.
type payer struct {
	*world
	p    *purse
	own  map[core.HashT]bool
	keys []*gen.Key
	salt uint64
}

func (w *payer) mint(v uint64, k *gen.Key, spent bool) {
	w.salt++
	tx := gen.Coinbase(w.salt, v, k.Pkh)
	w.stub.w.PutTx(tx)
	w.stub.coins = append(w.stub.coins, &coin{core.Utxo{TxId: model.Tid(tx), Ind: 0, Value: v}, k.Pkh, spent})
}

// mints makes several coins of one transaction, some worth nothing.
func (w *payer) mints(n int) {
	t := w.t
	w.salt++
	tx := gen.Coinbase(w.salt, 0, gen.K(50).Pkh)
	tx.Outputs = nil
	for range n {
		o := core.TxOut{Value: w.value(), PublicKeyHash: pbt.Pick(t, append([]*gen.Key{gen.K(50)}, w.keys...)).Pkh}
		if t.Chance(20) {
			o.Value = 0
		}
		tx.Outputs = append(tx.Outputs, o)
	}
	w.stub.w.PutTx(tx)
	for i, o := range tx.Outputs {
		w.stub.coins = append(w.stub.coins, &coin{core.Utxo{TxId: model.Tid(tx), Ind: uint64(i), Value: o.Value}, o.PublicKeyHash, t.Chance(15)})
	}
}

func (w *payer) value() uint64 {
	t := w.t
	switch t.Weighted(4, 2, 2, 1) {
	case 1:
		return 1 + t.Draw(400)
	case 2:
		return uint64(1) << t.Draw(54)
	case 3:
		return []uint64{1000, 211, 283, 252, 323}[t.Intn(5)]
	}
	return 1 + t.Draw(100000)
}

// avail are the coins a payment can use.
func (w *payer) avail() (n int, sum uint64) {
	for _, c := range w.stub.coins {
		if w.own[c.owner] && !c.spent {
			n++
			sum += c.utxo.Value
		}
	}
	return
}

// sound checks what every posted transaction must be.
func (w *payer) sound(tx core.Tx, what string) (in, out uint64) {
	t := w.t
	if tx.IsCoinbase {
		t.Fail("posted", "%s posts a coinbase", what)
	}
	if r := w.stub.w.CheckTx(tx); !r.Ok() {
		t.Fail("posted", "%s posts an invalid transaction: %v", what, r)
	}
	if tx.MinBlock != w.stub.height {
		t.Fail("posted", "%s posts a transaction not before height %d at height %d", what, tx.MinBlock, w.stub.height)
	}
	seen := map[core.Utxo]bool{}
	for _, i := range tx.Inputs {
		var c *coin
		for _, x := range w.stub.coins {
			if x.utxo == i.Utxo {
				c = x
			}
		}
		if c == nil || !w.own[c.owner] || seen[i.Utxo] {
			t.Fail("posted", "%s spends a coin that is not the wallet's, or twice", what)
		}
		if c.spent {
			t.Fail("pending-spent", "%s spends a coin that a pending transaction spends", what)
		}
		seen[i.Utxo] = true
		in += i.Utxo.Value
	}
	for _, o := range tx.Outputs {
		out += o.Value
	}
	return
}

// done settles a posted transaction.
func (w *payer) done(tx core.Tx) {
	for _, i := range tx.Inputs {
		for _, c := range w.stub.coins {
			if c.utxo == i.Utxo {
				c.spent = true
			}
		}
	}
}

func number(out, key string) (uint64, bool) {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, key) {
			f := strings.Fields(strings.TrimPrefix(l, key))
			if len(f) > 0 {
				v, err := strconv.ParseUint(f[0], 10, 64)
				return v, err == nil
			}
		}
	}
	return 0, false
}

// confirm draws what is typed, whether it is a yes, a no.
func confirm(t *pbt.T) (s string, yes, no bool) {
	switch t.Weighted(6, 1, 2, 1, 1, 1, 1) {
	case 1:
		return "Y\n", true, false
	case 2:
		return "n\n", false, true
	case 3:
		return "\n", false, true
	case 4:
		return "", false, true
	case 5:
		return pbt.Pick(t, []string{"no\n", "N\n", "q\n", "never y\n", "nay\n", "0\n", "n\ny\n", "\ny\n"}), false, true
	case 6:
		return pbt.Pick(t, []string{"yes\n", " y\n", "y", "y \n", "YES\n"}), false, false
	}
	return "y\n", true, false
}

func (w *payer) send() {
	t := w.t
	navail, sum := w.avail()
	type dest struct {
		pkh string
		v   uint64
	}
	var args []string
	typed := map[string]uint64{}
	total := uint64(0)
	bad, over := false, false
	n := []int{1, 1, 1, 2, 3, 5}[t.Intn(6)]
	var names []string
	for range n {
		var pkh string
		switch k := t.Weighted(5, 2, 2, 1); {
		case k == 1 && len(names) > 0:
			pkh = pbt.Pick(t, names)
		case k == 2:
			pkh = hex.EncodeToString(dataOf(pbt.Pick(t, w.keys).Pkh))
		case k == 3:
			h := t.Hash32()
			pkh = hex.EncodeToString(h[:])
		default:
			pkh = hex.EncodeToString(dataOf(gen.K(20 + t.Intn(8)).Pkh))
		}
		names = append(names, pkh)
		var v uint64
		switch t.Weighted(6, 2, 1, 1, 1) {
		case 0:
			v = 1 + t.Draw(sum/uint64(n)+1)
		case 1:
			v = 1 + t.Draw(300)
		case 2:
			v = sum - min(sum, t.Draw(600))
		case 3:
			v = pbt.Pick(t, []uint64{0, 1, sum + 1, ^uint64(0), 1 << 63, -sum})
		case 4:
			v = t.U64()
		}
		arg := fmt.Sprintf("%s:%d", pkh, v)
		if t.Chance(10) {
			arg = fmt.Sprintf("%s:%d", strings.ToUpper(pkh), v)
		}
		if t.Chance(6) {
			arg = pbt.Pick(t, []string{pkh, pkh + ":", pkh + ":-5", pkh + ":1.5", pkh + ":1:2", ":5", pkh[:63] + ":5", pkh + "0:5", pkh + ":18446744073709551616",
				"g" + pkh[1:] + ":5", pkh + ": 5", pkh + ":0x10", pkh + ":1e3", "", pkh + ":5,"})
			bad = true
		} else {
			if typed[pkh]+v < v || total+v < v {
				over = true
			}
			typed[pkh] += v
			total += v
		}
		args = append(args, arg)
	}
	in, yes, no := confirm(t)
	w.stub.answer, w.stub.shape = t.Weighted(16, 2, 2, 1, 2, 1), t.U64()
	r := w.run(w.p.dev, opts{fsize: -1, stdin: in}, append([]string{"send"}, args...)...)
	t.Note("%s, typing %q, with %d coins of %d, node answers in way %d: %v", r.line, in, navail, sum, w.stub.answer, r.ok())
	what := "`" + r.line + "`"
	posts := w.stub.taken()
	if len(posts) > 1 {
		t.Fail("posted", "%s posts %d transactions", what, len(posts))
	}
	if no && len(posts) > 0 {
		t.Fail("unconfirmed", "%s posts a transaction after the answer %q", what, in)
	}
	// Comparable with certainty only far from the limits
	worst := uint64(72+navail*211+40*(len(typed)+1)) + 1
	fits := worst <= 16000
	if len(posts) == 0 {
		if r.ok() {
			t.Fail("claimed", "%s posts nothing and reports success", what)
		}
		if !bad && !over && yes && fits && navail > 0 && total < sum && sum-total > worst {
			t.Fail("failed", "with %d coins worth %d, %s", navail, sum, r.show())
		}
		return
	}
	if bad {
		t.Fail("posted", "%s posts a transaction, though an argument is malformed", what)
	}
	if over || total >= sum {
		t.Fail("posted", "%s posts a transaction, though only %d are there", what, sum)
	}
	tx := posts[0]
	tin, tout := w.sound(tx, what)
	// Exactly the typed amounts and one output to the wallet
	left := map[string]uint64{}
	for _, o := range tx.Outputs {
		left[hex.EncodeToString(dataOf(o.PublicKeyHash))] += o.Value
	}
	var extra []string
	change := uint64(0)
	for k, v := range typed {
		if left[k] < v {
			t.Fail("amount", "%s pays %s %d, not the typed %d", what, k[:8], left[k], v)
		}
		left[k] -= v
	}
	for k, v := range left {
		if v == 0 {
			continue
		}
		extra = append(extra, k)
		change += v
		if !w.own[hashOf(k)] {
			t.Fail("amount", "%s pays %s %d more than typed", what, k[:8], v)
		}
	}
	if len(extra) > 1 {
		t.Fail("amount", "%s returns change to %d addresses", what, len(extra))
	}
	fee := tin - tout
	if fee > worst+16 {
		t.Fail("fee", "%s pays a fee of %d for %d inputs and %d outputs", what, fee, len(tx.Inputs), len(tx.Outputs))
	}
	for key, want := range map[string]uint64{"outputs: ": total, "fees: ": fee, "total debit: ": total + fee} {
		if got, ok := number(r.out, key); !ok || got != want {
			t.Fail("shown", "%s, which pays %d and a fee of %d, shows %q %d", what, total, fee, key, got)
		}
	}
	if rate := fmt.Sprintf("fees: %d : %.2f%%", fee, 100*float64(fee)/float64(total)); !strings.Contains(r.out, rate+"\n") {
		t.Fail("shown", "%s, which pays %d and a fee of %d, does not show %q but %s", what, total, fee, rate, r.show())
	}
	if (w.stub.answer == 0) != r.ok() {
		t.Fail("claimed", "the node answers in way %d and %s", w.stub.answer, r.show())
	}
	if w.stub.answer == 0 {
		w.done(tx)
	}
}

func (w *payer) consolidate() {
	t := w.t
	navail, sum := w.avail()
	in, yes, no := confirm(t)
	w.stub.answer, w.stub.shape = t.Weighted(16, 2, 2, 1, 2, 1), t.U64()
	r := w.run(w.p.dev, opts{fsize: -1, stdin: in}, "consolidate")
	t.Note("%s, typing %q, with %d coins of %d, node answers in way %d: %v", r.line, in, navail, sum, w.stub.answer, r.ok())
	what := "`" + r.line + "`"
	posts := w.stub.taken()
	if len(posts) > 1 || no && len(posts) > 0 {
		t.Fail("unconfirmed", "%s posts %d transactions after the answer %q", what, len(posts), in)
	}
	if len(posts) == 0 {
		if r.ok() {
			t.Fail("claimed", "%s posts nothing and reports success", what)
		}
		if yes && navail > 1 && sum > uint64(150+221*navail) {
			t.Fail("failed", "with %d coins worth %d, %s", navail, sum, r.show())
		}
		return
	}
	tx := posts[0]
	tin, tout := w.sound(tx, what)
	for _, o := range tx.Outputs {
		if !w.own[o.PublicKeyHash] {
			t.Fail("amount", "%s pays %d to %s, not of the wallet", what, o.Value, o.PublicKeyHash.String()[:8])
		}
	}
	if len(tx.Outputs) != 1 || navail <= 70 && len(tx.Inputs) != navail {
		t.Fail("amount", "%s moves %d of %d coins into %d", what, len(tx.Inputs), navail, len(tx.Outputs))
	}
	for key, want := range map[string]uint64{"inputs: ": tin, "outputs: ": tout, "fees: ": tin - tout} {
		if got, ok := number(r.out, key); !ok || got != want {
			t.Fail("shown", "%s, which moves %d to %d, shows %q %d", what, tin, tout, key, got)
		}
	}
	if rate := fmt.Sprintf("fees: %d : %.2f%%", tin-tout, 100*float64(tin-tout)/float64(tin)); !strings.Contains(r.out, rate+"\n") {
		t.Fail("shown", "%s, which moves %d to %d, does not show %q but %s", what, tin, tout, rate, r.show())
	}
	if (w.stub.answer == 0) != r.ok() {
		t.Fail("claimed", "the node answers in way %d and %s", w.stub.answer, r.show())
	}
	if w.stub.answer == 0 {
		w.done(tx)
	}
}

// look asks for balances or coins.
func (w *payer) look() {
	t := w.t
	args := []string{pbt.Pick(t, []string{"balance", "balance", "utxos"})}
	asked := map[string]bool{}
	given := t.Chance(40)
	if given {
		for range t.Range(1, 4) {
			h := pbt.Pick(t, append(w.keys, gen.K(30), gen.K(31))).Pkh
			s := hex.EncodeToString(dataOf(h))
			args = append(args, s)
			asked[s] = true
		}
	} else {
		for k := range w.p.keys {
			asked[k] = true
		}
	}
	r := w.run(w.p.dev, opts{fsize: -1}, args...)
	t.Note("%s", r.line)
	w.stub.taken()
	if len(asked) == 0 {
		if r.ok() {
			t.Fail("shown", "without any address, %s", r.show())
		}
		return
	}
	var want, got []string
	bal := map[string]uint64{}
	total := uint64(0)
	for k := range asked {
		bal[k] = 0
	}
	for _, c := range w.stub.coins {
		k := hex.EncodeToString(dataOf(c.owner))
		if !asked[k] {
			continue
		}
		bal[k] += c.utxo.Value
		total += c.utxo.Value
		if args[0] == "utxos" {
			want = append(want, fmt.Sprintf("%s[%d]\t%d", hex.EncodeToString(dataOf(c.utxo.TxId)), c.utxo.Ind, c.utxo.Value))
		}
	}
	if args[0] == "balance" {
		for k, v := range bal {
			want = append(want, fmt.Sprintf("%s\t%d", k, v))
		}
		want = append(want, fmt.Sprintf("total\t%d", total))
	}
	for _, l := range strings.Split(r.out, "\n") {
		if strings.Contains(l, "\t") {
			got = append(got, l)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") || !r.ok() {
		t.Fail("shown", "with %d coins, %s; expected %q", len(w.stub.coins), r.show(), want)
	}
}

// newPayer makes a wallet file of 0-4 keys and coins at the stub.
func newPayer(t *pbt.T) (*payer, int) {
	w := &payer{world: newWorld(t), own: map[core.HashT]bool{}}
	dev := t.Bool()
	w.p = w.pair[map[bool]int{false: 0, true: 1}[dev]]
	nk := t.Weighted(1, 4, 4, 3, 2)
	base := 0
	if t.Chance(5) { // many
		nk, base = t.Range(8, 100), 200
	}
	var ks []keyOf
	for n := range nk {
		i := base + n
		k := gen.K(i)
		w.keys = append(w.keys, k)
		w.own[k.Pkh] = true
		ks = append(ks, key(i, 0))
		w.p.keys[ks[n].pkh] = true
	}
	w.p.addr = w.stub.url + map[bool]string{false: "/prod", true: "/dev"}[dev]
	w.p.exists = true
	os.MkdirAll(w.dir(), 0o700)
	os.Chown(w.home+"/.config", uid, uid)
	os.Chown(w.dir(), uid, uid)
	os.WriteFile(w.path(dev), walletJSON(dev, w.p.addr, ks), 0o600)
	os.Chown(w.path(dev), uid, uid)
	w.stub.height = t.Draw(3) * t.Draw(100000)
	if nk == 0 {
		w.keys = []*gen.Key{gen.K(40)}
	}
	if t.Chance(40) {
		for range t.Range(1, 3) {
			w.mints(t.Range(2, 6))
		}
	}
	for range []int{0, 1, 3, 8, 60, 110}[t.Weighted(1, 3, 5, 5, 1, 1)] {
		k := gen.K(50)
		if nk > 0 && t.Chance(90) {
			k = pbt.Pick(t, w.keys)
		}
		w.mint(w.value(), k, t.Chance(15))
	}
	n, sum := w.avail()
	t.Note("%d keys, %d coins at the node, %d worth %d spendable", nk, len(w.stub.coins), n, sum)
	return w, nk
}

func runPay(t *pbt.T) {
	w, nk := newPayer(t)
	n, _ := w.avail()
	posts := 0
	t.Steps(2, 5, 10, func(int) {
		switch t.Weighted(6, 2, 3, 2) {
		case 0:
			w.send()
			posts++
		case 1:
			w.consolidate()
			posts++
		case 2:
			w.look()
		case 3: // blocks and new coins
			w.stub.height += t.Draw(5)
			w.mint(w.value(), pbt.Pick(t, w.keys), false)
			t.Note("a new coin")
		}
	})
	w.check("payments")
	if nk > 0 && n > 0 && posts > 0 {
		t.NonTrivial()
	}
}

// runDamaged has a wallet file with a key that is not its address's.
func runDamaged(t *pbt.T) {
	w, _ := newPayer(t)
	path := w.path(w.p.dev)
	var f map[string]any
	raw, _ := os.ReadFile(path)
	if json.Unmarshal(raw, &f) != nil {
		panic("infrastructure: cannot read the wallet")
	}
	ks := f["keys"].([]any)
	good := len(ks)
	a, b := key(150, t.Weighted(6, 1, 1)), key(151, 0)
	bad := map[string]any{"publicKeyHash": a.pkh, "privateKey": base64.StdEncoding.EncodeToString(b.der)}
	at := t.Intn(good + 1)
	how := t.Weighted(3, 2, 2, 1)
	switch how {
	case 1: // a bit of the address
		d, _ := hex.DecodeString(b.pkh)
		d[t.Intn(32)] ^= 1 << t.Intn(8)
		bad["publicKeyHash"] = hex.EncodeToString(d)
	case 2: // a cut key
		bad["privateKey"] = base64.StdEncoding.EncodeToString(b.der[:t.Intn(len(b.der))])
	case 3: // two keys exchanged
		bad2 := map[string]any{"publicKeyHash": b.pkh, "privateKey": base64.StdEncoding.EncodeToString(a.der)}
		i := t.Intn(len(ks) + 1)
		ks = append(ks[:i:i], append([]any{bad2}, ks[i:]...)...)
	}
	ks = append(ks[:at:at], append([]any{bad}, ks[at:]...)...)
	f["keys"] = ks
	raw, _ = json.Marshal(f)
	os.WriteFile(path, raw, 0o600)
	t.Note("a damaged key (way %d) at %d among %d", how, at, good)
	t.Steps(1, 2, 4, func(int) {
		args := pbt.Pick(t, [][]string{{"generate"}, {"send", hex.EncodeToString(dataOf(gen.K(20).Pkh)) + ":1"}, {"consolidate"}, {"balance"}, {"import"}})
		if args[0] == "import" {
			args = append(args, w.give(walletJSON(true, "", []keyOf{key(152, 0)})))
		}
		r := w.run(w.p.dev, opts{fsize: -1, stdin: "y\n"}, args...)
		t.Note("%s", r.line)
		if len(w.stub.taken()) > 0 {
			t.Fail("damaged-used", "with a damaged key in the wallet file, `%s` posts a transaction", r.line)
		}
		if r.ok() || shown(r.out) != "" && args[0] == "generate" {
			t.Fail("damaged-used", "with a damaged key in the wallet file, %s", r.show())
		}
		now, err := os.ReadFile(path)
		if err != nil || !bytes.Equal(now, raw) {
			t.Fail("damaged-used", "with a damaged key in the wallet file, `%s` changes it", r.line)
		}
	})
	if good > 0 {
		t.NonTrivial()
	}
}

var _ = elliptic.P256

func TestPBT(tt *testing.T) {
	pbt.Main(tt, []pbt.Arm{
		{Name: "keys", Quick: 400, Thorough: 10000, Chunk: 50, StallS: 120, Run: runKeys,
			Rule: "2-20 wallet commands (generate with and without prefix, import of good, cut, mismatching and odd files, connect, others) on both wallets, some hit by a file size limit, a kill or a write-protected directory, under several umasks; both wallet files read independently after each, all files private, the wallet usable after an interruption; non-trivial: two keys and two kinds of command"},
		{Name: "pay", Quick: 400, Thorough: 10000, Chunk: 50, StallS: 120, Run: runPay,
			Rule: "a wallet of 0-4 (at times 8-100) keys, a stub node with 0-120 coins (some of the same transaction, some worth nothing) and 2-10 commands: sends (1-5 destinations, repeated, own, malformed, too large), consolidations, balances, coin lists, each confirmed, declined or neither, the node accepting, refusing, naming another id, answering garbage or failing; the posted transaction, the shown figures and the outcome against the typed; non-trivial: keys, spendable coins and a payment"},
		{Name: "ask", Quick: 200, Thorough: 5000, Chunk: 50, StallS: 120, Run: runAsk,
			Rule: "a stub node with random confirmations, inclusion blocks, transactions, merkle nodes, blocks and balances for 2-8 hashes, and 2-12 look-up commands with known, unknown, repeated and malformed arguments, the node sometimes failing; what is shown is what the node knows, unknown ones named as such; non-trivial: always"},
		{Name: "faulty", Quick: 600, Thorough: 5000, Chunk: 50, StallS: 120, Run: runFaulty,
			Rule: "2-10 commands of all kinds, one answer of the node to each damaged: another status, the connection cut inside or before it, a hash or number in it malformed, other text or nothing; no command may succeed, show a total or post a transaction; non-trivial: two answers damaged in two ways"},
		{Name: "damaged", Quick: 120, Thorough: 2000, Chunk: 50, StallS: 120, Run: runDamaged,
			Rule: "a wallet file of 0-100 keys one of which is another address's or cut, and 1-4 commands: none may succeed, show an address, post a transaction or change the file; non-trivial: sound keys too"},
		{Name: "overlap", Quick: 150, Thorough: 4000, Chunk: 30, StallS: 120, Retry: true, Run: runOverlap,
			Rule: "1-2 rounds of 2-7 commands at the same time (generate, long prefix searches, imports, connect), some killed; no key shown or imported may be missing afterwards; non-trivial: always"},
	})
}
