//go:build go1.25

package c28

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/wire"
	"github.com/levilutz/basiccoin/pkg/core"
)

const uid = 54321

// patience is how long anything due may take on a busy machine.
const patience = 60 * time.Second

func eventually(d time.Duration, f func() bool) bool {
	until := time.Now().Add(d)
	for !f() {
		if time.Now().After(until) {
			return false
		}
		time.Sleep(40 * time.Millisecond)
	}
	return true
}

// options of a node process.
type options struct {
	dev, listen, newnet, wallet, admin bool
	addr, pw, save, payout             string
	seeds                              []string
	miners                             int
	http                               int
}

func (o options) args() []string {
	var a []string
	flag := func(on bool, s string) {
		if on {
			a = append(a, s)
		}
	}
	flag(o.dev, "-dev")
	flag(o.listen, "-listen")
	flag(o.newnet, "-new-network")
	flag(o.wallet, "-http-wallet")
	flag(o.admin, "-http-admin")
	flag(o.addr != "", "-addr="+o.addr)
	flag(o.pw != "", "-admin-pw="+o.pw)
	flag(o.save != "", "-save-dir="+o.save)
	flag(o.payout != "", "-payout="+o.payout)
	flag(len(o.seeds) > 0, "-seeds="+strings.Join(o.seeds, ","))
	flag(o.miners > 0, "-miners="+strconv.Itoa(o.miners))
	flag(o.http > 0, "-http="+strconv.Itoa(o.http))
	return a
}

// node is a node process, with what it must know while it runs.
type node struct {
	options
	t       *pbt.T
	name    string
	cmd     *exec.Cmd
	out     string // file with its output
	gone    chan struct{}
	up      bool
	home    string
	lock    net.PacketConn
	runs    int
	knows   map[string]bool // blocks it was given or must have got
	maybe   map[string]bool // given but perhaps lost
	head    *model.Block
	pending map[core.HashT]bool
}

var client = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

// port finds a free port, locked against the other cases.
func port(t *pbt.T) (int, net.PacketConn) {
	for range 2000 {
		p := 20000 + rand.IntN(12000)
		l, err := net.ListenPacket("udp", fmt.Sprintf("127.77.77.77:%d", p))
		if err != nil {
			continue
		}
		c, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			c.Close()
			return p, l
		}
		l.Close()
	}
	panic("infrastructure: no free port")
}

func spot() string {
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+rand.IntN(76), rand.IntN(256), 1+rand.IntN(254), 2000+rand.IntN(18000))
}

func newNode(t *pbt.T, name string, o options) *node {
	n := &node{options: o, t: t, name: name, home: t.TempDir(), knows: map[string]bool{"": true}, maybe: map[string]bool{},
		pending: map[core.HashT]bool{}}
	os.Chmod(n.home, 0o755)
	os.Chown(n.home, uid, uid)
	if o.wallet || o.admin {
		n.http, n.lock = port(t)
	}
	t.Cleanup(func() {
		n.kill()
		if n.lock != nil {
			n.lock.Close()
		}
	})
	return n
}

func (n *node) kill() {
	if n.cmd != nil && n.cmd.Process != nil {
		syscall.Kill(-n.cmd.Process.Pid, syscall.SIGKILL)
		<-n.gone
	}
	n.up = false
}

// launch starts the process without waiting for anything.
func (n *node) launch() {
	n.runs++
	n.out = fmt.Sprintf("%s/out%d", n.home, n.runs)
	f, err := os.Create(n.out)
	if err != nil {
		panic("infrastructure: " + err.Error())
	}
	defer f.Close()
	n.cmd = exec.Command(os.Getenv("PBT_BIN")+"/bcnode", n.args()...)
	n.cmd.Dir = n.home
	n.cmd.Env = []string{"HOME=" + n.home, "PATH=/usr/bin:/bin", "GOMAXPROCS=4", "GOTRACEBACK=single"}
	n.cmd.Stdout, n.cmd.Stderr = f, f
	n.cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uid, Gid: uid}, Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := n.cmd.Start(); err != nil {
		panic("infrastructure: cannot start the node: " + err.Error())
	}
	n.gone = make(chan struct{})
	go func(c *exec.Cmd, g chan struct{}) { c.Wait(); close(g) }(n.cmd, n.gone)
	n.up = true
	n.t.Note("%s starts: bcnode %s", n.name, strings.Join(n.args(), " "))
}

// output is the end of what the process printed.
func (n *node) output() string {
	b, _ := os.ReadFile(n.out)
	if i := bytes.Index(b, []byte("\ngoroutine ")); i > 0 && i > 600 {
		b = b[i-600 : i]
	}
	if len(b) > 900 {
		b = b[len(b)-900:]
	}
	return string(b)
}

func (n *node) printed() string { b, _ := os.ReadFile(n.out); return string(b) }

func (n *node) ended() bool {
	select {
	case <-n.gone:
		return true
	default:
		return false
	}
}

// alive fails the case if the process ended on its own.
func (n *node) alive() {
	if n.up && n.ended() {
		n.t.Fail("ended", "%s ends by itself (%v): %s", n.name, n.cmd.ProcessState, n.output())
	}
}

type resp struct {
	code int
	body string
	err  error
}

func (r resp) String() string {
	if r.err != nil {
		return r.err.Error()
	}
	return fmt.Sprintf("%d %.200q", r.code, r.body)
}

func (n *node) do(method, path, pw string, body []byte) resp {
	q, err := http.NewRequest(method, fmt.Sprintf("http://127.0.0.1:%d%s", n.http, path), bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	if pw != "" {
		q.Header.Set("Pw", pw)
	}
	a, err := client.Do(q)
	if err != nil {
		return resp{err: err}
	}
	defer a.Body.Close()
	b, err := io.ReadAll(a.Body)
	return resp{a.StatusCode, string(b), err}
}

func (n *node) get(path string) resp { return n.do("GET", path, "", nil) }

// ready waits until the process serves what its options ask for, and nothing else.
func (n *node) ready() {
	t := n.t
	if n.wallet || n.admin {
		want := "v0.0.0"
		if n.dev {
			want += "-dev"
		}
		var r resp
		if !eventually(patience, func() bool { n.alive(); r = n.get("/version"); return r.err == nil }) {
			t.Fail("deaf", "%s does not serve HTTP: %s", n.name, r)
		}
		t.Check(r.code == 200 && r.body == want, "version", "%s says its version is %s, not %s", n.name, r, want)
		n.served("/wallet/head/height", n.wallet)
		n.served("/wallet/richlist", n.wallet)
		r = n.do("POST", "/admin/terminate", n.pw+"x", nil)
		switch {
		case !n.admin:
			t.Check(r.code == 404, "admin-off", "%s without -http-admin answers /admin/terminate with %s", n.name, r)
		case n.pw != "":
			t.Check(r.code == 401, "password", "%s answers a wrong password with %s", n.name, r)
		}
		if n.admin && n.pw == "" { // that one was an order
			n.stopped("an order without a password being set")
			n.launch()
			n.ready2()
		}
	}
	n.listening()
	n.alive()
}

func (n *node) ready2() {
	if n.wallet || n.admin {
		var r resp
		if !eventually(patience, func() bool { n.alive(); r = n.get("/version"); return r.err == nil }) {
			n.t.Fail("deaf", "%s does not serve HTTP: %s", n.name, r)
		}
	}
	n.listening()
}

func (n *node) served(path string, on bool) {
	r := n.get(path)
	if on {
		n.t.Check(r.code == 200, "wallet-on", "%s with -http-wallet answers %s with %s", n.name, path, r)
	} else {
		n.t.Check(r.code == 404, "wallet-off", "%s without -http-wallet answers %s with %s", n.name, path, r)
	}
}

// listening checks that connections are taken if and only if they should be.
func (n *node) listening() {
	if n.addr == "" {
		return
	}
	try := func() bool {
		c, err := net.DialTimeout("tcp", n.addr, 5*time.Second)
		if err == nil {
			c.Close()
		}
		return err == nil
	}
	if n.listen {
		if !eventually(patience, func() bool { n.alive(); return try() }) {
			n.t.Fail("not-listening", "%s does not listen on %s: %s", n.name, n.addr, n.output())
		}
	} else if try() {
		n.t.Fail("listening", "%s listens on %s without -listen", n.name, n.addr)
	}
}

// stopped waits for the end of the process.
func (n *node) stopped(why string) {
	select {
	case <-n.gone:
	case <-time.After(patience):
		n.t.Fail("not-ended", "%s goes on after %s", n.name, why)
	}
	n.up = false
}

// stop ends the process by order or by force.
func (n *node) stop(force bool) {
	if !force && n.admin {
		r := n.do("POST", "/admin/terminate", n.pw, nil)
		// The process may end before it has answered
		n.t.Check(r.err != nil || r.code == 200, "terminate", "%s answers the order to end with %s", n.name, r)
		n.stopped("the order to end")
		n.t.Note("%s ends by order", n.name)
		return
	}
	n.t.Note("%s is killed", n.name)
	n.kill()
}

// height asks for the height.
func (n *node) height() (uint64, bool) {
	r := n.get("/wallet/head/height")
	h, err := strconv.ParseUint(r.body, 10, 64)
	return h, err == nil && r.code == 200
}

// rich is the whole rich list.
func (n *node) rich() map[string]uint64 {
	r := n.get("/wallet/richlist?maxLen=1000")
	var v struct {
		RichList map[string]uint64 `json:"richList"`
	}
	if r.code != 200 || json.Unmarshal([]byte(r.body), &v) != nil {
		return nil
	}
	return v.RichList
}

// included is the block on the chain a transaction is in.
func (n *node) included(tx core.HashT) string {
	r := n.get("/wallet/tx/block?txId=" + tx.String())
	var v struct {
		IncludedBlocks map[string]string `json:"includedBlocks"`
	}
	if r.code != 200 || json.Unmarshal([]byte(r.body), &v) != nil {
		return ""
	}
	return v.IncludedBlocks[tx.String()]
}

// isAt says whether the node's head is the block, with its ledger; if not, what is different.
func (n *node) isAt(f *forest, b *model.Block) string {
	h, ok := n.height()
	if !ok {
		return "no height is told"
	}
	if h != b.Height {
		return fmt.Sprintf("the height is %d, not %d", h, b.Height)
	}
	if b.Height > 0 {
		cb := model.Tid(f.specs[f.name[b.Id]].Txs[0])
		if got := n.included(cb); got != b.Id.String() {
			return fmt.Sprintf("the coinbase of %s is said to be in block %q", f.name[b.Id], got)
		}
	}
	want := f.w.LedgerAt(b).Balances()
	got := n.rich()
	if got == nil {
		return "no rich list is told"
	}
	for k, v := range want {
		if v > 0 && got[k.String()] != v {
			return fmt.Sprintf("%s has %d, not %d", k.String()[:8], got[k.String()], v)
		}
	}
	for k, v := range got {
		if v > 0 && want[core.NewHashTFromStringAssert(k)] != v {
			return fmt.Sprintf("%s has %d", k[:8], v)
		}
	}
	return ""
}

// reach waits until the node's head is one of the blocks and remembers which.
func (n *node) reach(f *forest, any []*model.Block, key, after string) {
	var last string
	at := func() bool {
		n.alive()
		last = ""
		for _, b := range any {
			why := ""
			if n.wallet {
				why = n.isAt(f, b)
			} else if n.listen {
				if id, err := n.probe(); err != "" {
					why = err
				} else if id != b.Id {
					why = fmt.Sprintf("its head is %s (%s)", f.name[id], id.String()[:8])
				}
			}
			if why == "" {
				n.head = b
				return true
			}
			last = why
		}
		return false
	}
	if !eventually(patience, at) {
		var names []string
		for _, b := range any {
			names = append(names, f.name[b.Id])
		}
		n.t.Fail(key, "after %s the head of %s should be %s (height %d), but %s; it says: %s", after, n.name, strings.Join(names, " or "), any[0].Height, last, n.output())
	}
}

// dial connects as a peer.
func (n *node) dial() (*wire.Foe, string) {
	a, err := net.ResolveTCPAddr("tcp", n.addr)
	if err != nil {
		panic(err)
	}
	c, err := net.DialTCP("tcp", nil, a)
	if err != nil {
		return nil, err.Error()
	}
	f := &wire.Foe{T: n.t, C: c, Init: true, Patience: 20 * time.Second}
	f.OnCmd = func(cmd string) {
		switch cmd {
		case "announce-addr":
			f.GetStr()
		case "addrs-request":
			f.Command("peer-addrs", func() { f.Num(0) })
		case "new-tx":
			f.Hash(core.HashT{})
			panic(wire.Gone{Why: "a transaction was offered"})
		}
	}
	why := wire.Try(func() {
		id := gen.K(rand.IntN(40)).Pkh.String()[:32] + fmt.Sprintf("%032x", rand.Uint64())
		for _, s := range []string{"levilutz/basiccoin", "v0.0.0", id} {
			f.Str(s)
		}
		f.Want("levilutz/basiccoin")
		f.Want("v0.0.0")
		f.GetStr()
		f.Want("continue")
		f.Str("continue")
	})
	if why != "" {
		c.Close()
		return nil, why
	}
	return f, ""
}

// probe asks a listening node for its head, as a peer does.
func (n *node) probe() (id core.HashT, why string) {
	f, why := n.dial()
	if why != "" {
		return id, why
	}
	defer f.C.Close()
	got := false
	head := func() {
		f.Hash(core.HashT{})
		f.Hash(core.HashT{})
		f.GetHash()
		id, got = f.GetHash(), true
		panic(wire.Gone{Why: "enough"})
	}
	old := f.OnCmd
	f.OnCmd = func(cmd string) {
		if cmd == "sync-chain" {
			head()
		}
		old(cmd)
	}
	why = wire.Try(func() { f.Command("sync-chain", head) })
	if got {
		return id, ""
	}
	return id, why
}

// feed offers the chain up to a block, as a peer does; it says why that was cut short, if it was.
func (n *node) feed(f *forest, tip string) string {
	c, why := n.dial()
	if why != "" {
		return why
	}
	b := f.at[tip]
	o := &wire.Offer{Work: model.FromBig(b.Work), Head: b.Id, Txs: map[core.HashT]core.Tx{}, Merkles: map[core.HashT]core.MerkleNode{}}
	for x := b; x.Height > 0; x = x.Parent {
		s := f.specs[f.name[x.Id]]
		o.Ids = append(o.Ids, x.Id)
		o.Blocks = append(o.Blocks, x.B)
		for _, tx := range s.Txs {
			o.Txs[model.Tid(tx)] = tx
		}
		for _, m := range s.Merkles {
			o.Merkles[model.Mid(m)] = m
		}
	}
	over := false
	old := c.OnCmd
	c.OnCmd = func(cmd string) {
		if cmd == "sync-chain" {
			c.Sync(o)
			over = true
			return
		}
		old(cmd)
	}
	why = wire.Try(func() {
		c.Command("sync-chain", func() { c.Sync(o); over = true })
		c.Str("cmd:close")
	})
	c.C.Close()
	if over {
		return ""
	}
	return why
}
