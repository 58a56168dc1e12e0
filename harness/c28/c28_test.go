//go:build go1.25

package c28

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

func TestMain(m *testing.M) {
	if p := os.Getenv("PBT_FIXTURE"); p != "" {
		regenerate(p)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// world is a hub and nodes that know only the hub.
type world struct {
	t     *pbt.T
	f     *forest
	nodes []*node // the hub first
	spent map[core.Utxo]bool
	fed   []string
}

func (w *world) hub() *node { return w.nodes[0] }

// linked are the running nodes that must share a chain with n.
func (w *world) linked(n *node) []*node {
	h := w.hub()
	joins := func(x *node) bool { return x == h || x.dev && !x.newnet && len(x.seeds) > 0 }
	if !h.up || !n.dev || !joins(n) {
		return []*node{n}
	}
	var out []*node
	for _, x := range w.nodes {
		if x.up && x.dev && joins(x) {
			out = append(out, x)
		}
	}
	return out
}

// due is the heaviest of the blocks the linked nodes know.
func (w *world) due(n *node) []*model.Block {
	if !n.dev {
		return []*model.Block{w.f.w.Root}
	}
	seen := map[string]bool{}
	best := w.f.w.Root
	for _, x := range w.linked(n) {
		for k := range x.knows {
			seen[k] = true
			if b := w.f.at[k]; b.Work.Cmp(best.Work) > 0 {
				best = b
			}
		}
	}
	var out []*model.Block
	for _, k := range pbt.SortedKeys(seen) {
		if b := w.f.at[k]; b.Work.Cmp(best.Work) == 0 {
			out = append(out, b)
		}
	}
	return out
}

// converge waits until every running node has the head it must have.
func (w *world) converge(after string) {
	dues := map[*node][]*model.Block{}
	for _, n := range w.nodes {
		if n.up {
			dues[n] = w.due(n)
		}
	}
	for _, n := range w.nodes {
		if n.up {
			n.reach(w.f, dues[n], "head", after)
		}
	}
	for n, d := range dues {
		if n.dev {
			for _, b := range d {
				if len(d) == 1 || b == n.head {
					n.knows[w.f.tag(b)] = true
				}
			}
		}
	}
}

func (f *forest) tag(b *model.Block) string {
	if b.Height == 0 {
		return ""
	}
	return f.name[b.Id]
}

func (w *world) start(n *node) {
	if n.save == "" {
		n.knows = map[string]bool{"": true}
	}
	n.pending = map[core.HashT]bool{}
	n.launch()
	n.ready()
}

// feed gives a block's chain to a node and waits for what must come of it.
func (w *world) feed(n *node, tip string) {
	w.t.Note("%s is offered the chain to %s (height %d)", n.name, tip, w.f.at[tip].Height)
	why := ""
	if !eventually(patience, func() bool { n.alive(); why = n.feed(w.f, tip); return why == "" }) {
		w.t.Fail("feed", "%s does not take part in a sync: %s; it says: %s", n.name, why, n.output())
	}
	if n.dev {
		n.knows[tip] = true
	}
	w.fed = append(w.fed, tip)
	w.converge("the offer of " + tip)
}

// pay posts a transaction and waits until all nodes at the same block have it.
func (w *world) pay(n *node) {
	t := w.t
	if n.head == nil || n.head.Height == 0 {
		return
	}
	var coins []gen.Coin
	for _, c := range gen.Coins(w.f.w.LedgerAt(n.head)) {
		if !w.spent[c.U] {
			coins = append(coins, c)
		}
	}
	if len(coins) == 0 {
		return
	}
	tx, _ := gen.SpendTx(t, coins, n.head.Height)
	if len(tx.Inputs) == 0 || model.TxVSize(tx) > dev.MaxTxVSize {
		return
	}
	tx.MinBlock = 0
	gen.Resign(&tx)
	id := model.Tid(tx)
	body, err := json.Marshal(tx)
	if err != nil {
		panic(err)
	}
	for _, i := range tx.Inputs {
		w.spent[i.Utxo] = true
	}
	peers := w.linked(n)
	if len(peers) > 1 {
		w.connected(len(peers) - 1)
	}
	r := n.do("POST", "/wallet/tx", "", body)
	t.Note("%s is posted transaction %s: %d", n.name, id.String()[:8], r.code)
	t.Check(r.code == 200 && r.body == id.String(), "post", "%s answers a valid transaction %s with %s", n.name, id, r)
	t.Label("posted")
	for _, x := range peers {
		if !x.wallet || x.head != n.head {
			continue
		}
		var last string
		if !eventually(patience, func() bool { x.alive(); last = x.holds(id); return last == "" }) {
			t.Fail("pending", "%s was posted %s, %s does not hold it as pending: %s", n.name, id.String()[:8], x.name, last)
		}
		if x != n {
			t.Label("passed on")
		}
	}
}

// connected waits until so many nodes are connected to the hub.
func (w *world) connected(want int) {
	a, _ := net.ResolveTCPAddr("tcp", w.hub().addr)
	ip := a.IP.To4()
	local := fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], a.Port)
	got := 0
	if !eventually(patience, func() bool {
		for _, n := range w.nodes {
			n.alive()
		}
		b, err := os.ReadFile("/proc/net/tcp")
		if err != nil {
			panic("infrastructure: " + err.Error())
		}
		got = 0
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) > 3 && f[1] == local && f[3] == "01" {
				got++
			}
		}
		return got >= want
	}) {
		w.t.Fail("unlinked", "%d nodes have the hub as their seed, %d are connected to it", want, got)
	}
	time.Sleep(300 * time.Millisecond) // for the handshake
}

// holds says why a transaction is not pending.
func (n *node) holds(id core.HashT) string {
	r := n.get("/wallet/tx/confirms?txId=" + id.String())
	var v struct {
		Confirms map[string]uint64 `json:"confirms"`
	}
	if r.code != 200 || json.Unmarshal([]byte(r.body), &v) != nil {
		return r.String()
	}
	if c, ok := v.Confirms[id.String()]; !ok || c != 0 {
		return fmt.Sprintf("confirms %v, %v", c, ok)
	}
	if r := n.get("/wallet/tx?txId=" + id.String()); r.code != 200 || !strings.Contains(r.body, id.String()) {
		return r.String()
	}
	return ""
}

func (w *world) nodeOpts(hub bool) options {
	t := w.t
	o := options{dev: true, wallet: t.Draw(8) != 7, admin: t.Bool()}
	if o.admin && t.Draw(4) != 3 {
		o.pw = []string{"pw", "p w=\"'", "0", "hunter2-ünï"}[t.Intn(4)]
	}
	if t.Draw(5) < 3 {
		o.save = []string{"chain", "a/b/c", "./x"}[t.Intn(3)]
	}
	if hub {
		o.listen, o.addr = true, spot()
		if t.Bool() { // with seeds that must not be asked
			o.newnet, o.seeds = true, []string{"127.99.99.99:9"}
		}
	}
	return o
}

func network(t *pbt.T) {
	w := &world{t: t, f: plant(), spent: map[core.Utxo]bool{}}
	hub := newNode(t, "the hub", w.nodeOpts(true))
	w.nodes = []*node{hub}
	kids := t.Weighted(2, 5, 3)
	hubFalls := t.Bool()
	for i := range kids {
		o := w.nodeOpts(false)
		o.seeds = []string{hub.addr}
		if t.Draw(4) == 3 {
			o.seeds = []string{spot(), hub.addr}
		}
		if t.Draw(3) == 2 {
			o.addr = spot()
			o.listen = !(hubFalls && kids > 1) && t.Bool()
		}
		switch t.Draw(9) {
		case 8:
			o.newnet = true
		case 7:
			o.dev = false
			o.wallet = true
		}
		if !o.listen { // something must tell its head
			o.wallet = true
		}
		w.nodes = append(w.nodes, newNode(t, fmt.Sprintf("node %d", i+1), o))
	}
	if kids > 0 {
		t.NonTrivial()
	}
	// Now and then the first child is there before its seed
	early := kids > 0 && t.Draw(5) == 4
	if early {
		w.nodes[1].launch()
		time.Sleep(time.Duration(t.Draw(2500)) * time.Millisecond)
	}
	w.start(hub)
	if t.Bool() {
		w.feedAny(hub)
	}
	for i, n := range w.nodes[1:] {
		if i == 0 && early {
			n.ready()
			if n.runs > 1 {
				n.pending = nil
			}
			continue
		}
		w.start(n)
	}
	w.converge("the start")
	t.Steps(1, 4, 8, func(int) {
		n := w.nodes[t.Intn(len(w.nodes))]
		switch t.Weighted(4, 3, 3, 1) {
		case 0:
			if !n.listen {
				n = hub
			}
			if n.up {
				w.feedAny(n)
			}
		case 1:
			if n == hub && !hubFalls {
				return
			}
			if n.up {
				w.fall(n)
			}
		case 2:
			if n.wallet && n.dev && n.up {
				w.pay(n)
			}
		case 3:
			if n.admin && n.pw != "" {
				for _, pw := range []string{"", n.pw + " ", strings.ToUpper(n.pw) + "!", "x"} {
					if strings.TrimSpace(pw) == strings.TrimSpace(n.pw) {
						continue // a header's value is trimmed
					}
					r := n.do("POST", "/admin/terminate", pw, nil)
					t.Check(r.code == 401, "password", "%s answers the password %q with %s", n.name, pw, r)
				}
				r := n.do("GET", "/admin/terminate", n.pw, nil)
				t.Check(r.code == 405, "method", "%s answers GET /admin/terminate with %s", n.name, r)
				time.Sleep(100 * time.Millisecond)
				n.alive()
			}
		}
	})
	w.converge("everything")
	for _, n := range w.nodes {
		n.alive()
	}
}

func (w *world) feedAny(n *node) {
	tip := pbt.Pick(w.t, w.f.names)
	if w.t.Bool() { // one near a fork or the ends
		tip = pbt.Pick(w.t, []string{"m12", "b9", "a6", "m6", "c14", "a8", "m7", "b7", "d5", "e1", "m1", "b8"})
	}
	w.feed(n, tip)
}

// fall ends a node and starts it again, perhaps with other options; meanwhile the others go on.
func (w *world) fall(n *node) {
	t := w.t
	n.stop(t.Bool())
	t.Label("restart")
	if t.Draw(3) == 2 {
		for _, x := range w.nodes {
			if x.up && x.listen {
				w.feedAny(x)
				break
			}
		}
	}
	if t.Draw(4) == 3 && n.save != "" && n.dev {
		// alone, what it has on disk is what it knows
		seeds, nn, was := n.seeds, n.newnet, n.listen
		n.seeds, n.newnet, n.listen = nil, true, false
		if n == w.hub() {
			n.listen = false
		}
		o := n.wallet
		n.wallet = true
		if n.http == 0 {
			n.http, n.lock = port(t)
		}
		w.start(n)
		d := w.alone(n)
		n.reach(w.f, d, "reload", "a restart alone")
		t.Label("reloaded")
		n.stop(t.Bool())
		n.seeds, n.newnet, n.listen, n.wallet = seeds, nn, was, o
	}
	if t.Draw(5) == 4 {
		n.admin, n.wallet = t.Bool(), true
		if n.http == 0 {
			n.http, n.lock = port(t)
		}
	}
	w.start(n)
	w.converge("a restart of " + n.name)
}

func (w *world) alone(n *node) []*model.Block {
	up := w.hub().up
	w.hub().up = false
	defer func() { w.hub().up = up }()
	if n == w.hub() {
		w.hub().up = false
	}
	best := w.f.w.Root
	for k := range n.knows {
		if b := w.f.at[k]; b.Work.Cmp(best.Work) > 0 {
			best = b
		}
	}
	var out []*model.Block
	for _, k := range pbt.SortedKeys(n.knows) {
		if b := w.f.at[k]; b.Work.Cmp(best.Work) == 0 {
			out = append(out, b)
		}
	}
	return out
}

// runnable is how many threads of the process want to run, on average, and how
// many do. On a busy machine idle threads that wake up briefly also wait.
func (n *node) runnable(d time.Duration) (wants, does float64, ok bool) {
	sum := func() (float64, float64, bool) {
		ls, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/schedstat", n.cmd.Process.Pid))
		s, r := 0.0, 0.0
		for _, p := range ls {
			b, err := os.ReadFile(p)
			f := strings.Fields(string(b))
			if err != nil || len(f) < 2 {
				continue
			}
			x, _ := strconv.ParseFloat(f[0], 64)
			y, _ := strconv.ParseFloat(f[1], 64)
			s, r = s+x+y, r+x
		}
		return s / 1e9, r / 1e9, len(ls) > 0
	}
	a, ar, ok := sum()
	t0 := time.Now()
	time.Sleep(d)
	b, br, ok2 := sum()
	e := time.Since(t0).Seconds()
	return (b - a) / e, (br - ar) / e, ok && ok2 && br > 0
}

// cpu is the processor time the process has used, in seconds.
func (n *node) cpu() float64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", n.cmd.Process.Pid))
	i := strings.LastIndexByte(string(b), ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

// The chance to find no block in so much processor time is below one in 50000
// with a miner ten times as slow per hash as the one at hand.
const budget = 250.0

func mine(t *pbt.T) {
	f := plant()
	k := gen.K(t.Intn(gen.NKeys))
	o := options{dev: true, newnet: true, listen: true, addr: spot(), wallet: true, miners: 1 + t.Intn(3), payout: k.Pkh.String()}
	if t.Bool() {
		o.save = "chain"
	}
	n := newNode(t, "the miner", o)
	w := &world{t: t, f: f, nodes: []*node{n}, spent: map[core.Utxo]bool{}}
	var mate *node
	if t.Bool() {
		mate = newNode(t, "the other", options{dev: true, seeds: []string{n.addr}, wallet: true})
		w.nodes = append(w.nodes, mate)
	}
	n.launch()
	n.ready()
	base := f.w.Root
	if t.Draw(3) > 0 {
		tip := pbt.Pick(t, []string{"m3", "m4", "a5", "m6", "d4"})
		t.Note("the miner is offered the chain to %s", tip)
		why := ""
		if !eventually(patience, func() bool { n.alive(); why = n.feed(f, tip); return why == "" }) {
			t.Fail("feed", "the miner does not take part in a sync: %s", why)
		}
		base = f.at[tip]
	}
	if mate != nil {
		mate.launch()
		mate.ready()
	}
	// How many threads work
	got, last := false, 0.0
	for range 6 {
		r, x, ok := n.runnable(1500 * time.Millisecond)
		if !ok {
			got = true // cannot be told here
			break
		}
		last = r
		if r > float64(n.miners)-0.35 && x < float64(n.miners)+0.6 {
			got = true
			break
		}
		n.alive()
	}
	t.Check(got, "threads", "with %s, %.2f threads work", strings.Join(n.args(), " "), last)
	// The chain to start from is there before any transaction
	var id core.HashT
	fee := uint64(0)
	var paid core.Tx
	if base.Height > 0 {
		cb := model.Tid(f.specs[f.name[base.Id]].Txs[0])
		if !eventually(patience, func() bool { n.alive(); return n.included(cb) == base.Id.String() }) {
			t.Fail("head", "the miner was offered the chain to %s and does not have its last block", f.name[base.Id])
		}
		coins := gen.Coins(f.w.LedgerAt(base))
		tx, _ := gen.SpendTx(t, coins, base.Height)
		if len(tx.Inputs) > 0 {
			tx.MinBlock = 0
			gen.Resign(&tx)
			id, paid = model.Tid(tx), tx
			fee = gen.Fees([]core.Tx{tx})
			body, _ := json.Marshal(tx)
			r := n.do("POST", "/wallet/tx", "", body)
			t.Check(r.code == 200 && r.body == id.String(), "post", "the miner answers a valid transaction with %s", r)
			t.Note("the miner is posted %s with fee %d", id.String()[:8], fee)
		}
	}
	// A block, and a block with the transaction
	t.NonTrivial()
	want := 1 + t.Intn(2)
	start := n.cpu()
	done := func() bool {
		h, ok := n.height()
		if !ok || h < base.Height+uint64(want) {
			return false
		}
		return id.EqZero() || n.included(id) != ""
	}
	mark, markCpu, at := time.Now(), start, base.Height
	for !done() {
		n.alive()
		if h, ok := n.height(); ok && h > at {
			at, start = h, n.cpu()
		}
		if n.cpu()-start > budget {
			t.Fail("mines", "with %s no block was found in %.0f s of work at height %d; it says: %s", strings.Join(n.args(), " "), budget, at, n.output())
		}
		if time.Since(mark) > 60*time.Second {
			r, _, ok := n.runnable(2 * time.Second)
			if n.cpu()-markCpu < 1 && ok && r < 0.2 {
				t.Fail("idle", "with %s the node does nothing; it says: %s", strings.Join(n.args(), " "), n.output())
			}
			mark, markCpu = time.Now(), n.cpu()
		}
		if !id.EqZero() && at > base.Height+4 {
			t.Fail("unmined", "a pending transaction is in none of %d mined blocks", at-base.Height)
		}
		time.Sleep(200 * time.Millisecond)
	}
	// The ledger is the one before plus the rewards
	check := func(x *node) {
		var h uint64
		var why string
		if !eventually(patience, func() bool {
			x.alive()
			why = ""
			h1, ok := x.height()
			rich := x.rich()
			h2, ok2 := x.height()
			if !ok || !ok2 || h1 != h2 || h1 < base.Height+uint64(want) {
				why = fmt.Sprintf("height %d, %v", h1, ok)
				return false
			}
			h = h1
			total := new(big.Int)
			for _, v := range rich {
				total.Add(total, new(big.Int).SetUint64(v))
			}
			if total.Cmp(new(big.Int).SetUint64(h*dev.BlockReward)) != 0 {
				why = fmt.Sprintf("at height %d there are %s coins", h, total)
				return false
			}
			l := gen.CopyLedger(f.w.LedgerAt(base))
			if !id.EqZero() && x.included(id) == "" {
				why = "the transaction is not on the chain"
				return false
			}
			if !id.EqZero() {
				gen.Put(l, paid)
			}
			bal := l.Balances()
			bal[k.Pkh] += (h-base.Height)*dev.BlockReward + fee
			for o, v := range bal {
				if rich[o.String()] != v {
					why = fmt.Sprintf("at height %d, %d blocks of it mined here, %s has %d, not %d", h, h-base.Height, o.String()[:8], rich[o.String()], v)
					return false
				}
			}
			return true
		}) {
			t.Fail("rewards", "%s: %s (paid to %s)", x.name, why, k.Pkh.String()[:8])
		}
		t.Note("%s is at height %d", x.name, h)
	}
	check(n)
	if mate != nil {
		check(mate)
	}
	if n.save != "" && t.Bool() { // what was mined stays
		h0, _ := n.height()
		n.stop(true)
		n.miners, n.payout = 0, ""
		n.launch()
		n.ready()
		if !eventually(patience, func() bool { n.alive(); h, ok := n.height(); return ok && h >= h0 }) {
			h, _ := n.height()
			t.Fail("reload", "the miner was at height %d when killed and is at %d after", h0, h)
		}
		_, r, ok := n.runnable(3 * time.Second)
		t.Check(!ok || r < 0.5, "threads", "without -miners %.2f threads work", r)
	}
}

// peers waits until the node prints that it has so many peers.
func (n *node) peers(want int, after string) {
	last := ""
	from := len(n.printed())
	if !eventually(patience, func() bool {
		n.alive()
		last = ""
		for _, l := range strings.Split(n.printed()[from:], "\n") {
			if strings.HasPrefix(l, "peers: ") {
				last = strings.TrimPrefix(l, "peers: ")
			}
		}
		return last == strconv.Itoa(want)
	}) {
		n.t.Fail("peers", "after %s, %s should have %d peers and says %q", after, n.name, want, last)
	}
}

// mesh lets nodes find each other through a common seed that then goes away.
func mesh(t *pbt.T) {
	w := &world{t: t, f: plant(), spent: map[core.Utxo]bool{}}
	mk := func(name string, seeds ...string) *node {
		o := options{dev: true, listen: true, addr: spot(), wallet: true, admin: t.Bool(), seeds: seeds}
		if t.Draw(3) == 2 {
			o.save = "chain"
		}
		if o.admin {
			o.pw = "pw"
		}
		n := newNode(t, name, o)
		return n
	}
	hub := mk("the seed")
	kids := []*node{}
	n := 2 + t.Intn(2)
	bare := -1
	if t.Draw(4) == 3 { // one is to find out its own address; one at a time, as the port is given
		var l net.PacketConn
		if !eventually(6*patience, func() (ok bool) {
			var err error
			l, err = net.ListenPacket("udp", "127.77.77.77:21720")
			return err == nil
		}) {
			t.Discard()
		}
		t.Cleanup(func() { l.Close() })
		bare = t.Intn(n)
		t.Label("own address")
	}
	hub.launch()
	hub.ready()
	for i := range n {
		k := mk(fmt.Sprintf("node %d", i+1), hub.addr)
		if i == bare {
			k.addr = ""
		} else if t.Draw(4) == 3 && bare < 0 && i > 0 {
			k.listen = false
		}
		k.launch()
		k.ready()
		if i == bare {
			k.addr = "127.0.0.1:21720"
			k.listening()
			k.addr = ""
		}
		kids = append(kids, k)
	}
	t.NonTrivial()
	// who can be connected with whom: not two that do not listen
	deaf := 0
	for _, k := range kids {
		if !k.listen {
			deaf++
		}
	}
	count := func(k *node, live int) int {
		if k.listen {
			return live
		}
		return live - (deaf - 1)
	}
	for _, k := range kids {
		k.peers(count(k, n), "the start")
	}
	hub.peers(n, "the start")
	hub.stop(t.Bool())
	for _, k := range kids {
		k.peers(count(k, n-1), "the end of the seed")
	}
	// Without the seed the network goes on
	var to *node
	for _, k := range kids {
		if k.listen && (to == nil || t.Bool()) {
			to = k
		}
	}
	tip := pbt.Pick(t, w.f.names)
	t.Note("%s is offered the chain to %s", to.name, tip)
	if to.addr == "" {
		to.addr = "127.0.0.1:21720"
	}
	why := ""
	if !eventually(patience, func() bool { to.alive(); why = to.feed(w.f, tip); return why == "" }) {
		t.Fail("feed", "%s does not take part in a sync: %s", to.name, why)
	}
	for _, k := range kids {
		k.reach(w.f, []*model.Block{w.f.at[tip]}, "head", "the offer of "+tip)
	}
	w.nodes = append([]*node{to}, kids...)
	for _, k := range kids {
		k.knows[tip] = true
	}
	// A transaction passes between those that are connected
	var coins = gen.Coins(w.f.w.LedgerAt(w.f.at[tip]))
	tx, _ := gen.SpendTx(t, coins, w.f.at[tip].Height)
	if len(tx.Inputs) > 0 {
		tx.MinBlock = 0
		gen.Resign(&tx)
		body, _ := json.Marshal(tx)
		r := to.do("POST", "/wallet/tx", "", body)
		t.Check(r.code == 200 && r.body == model.Tid(tx).String(), "post", "%s answers a valid transaction with %s", to.name, r)
		for _, k := range kids {
			var last string
			if !eventually(patience, func() bool { k.alive(); last = k.holds(model.Tid(tx)); return last == "" }) {
				t.Fail("pending", "%s was posted a transaction, %s does not hold it as pending: %s", to.name, k.name, last)
			}
		}
	}
	// A newcomer with any of them as its seed finds all
	c := mk("the newcomer", to.addr)
	c.launch()
	c.ready()
	c.reach(w.f, []*model.Block{w.f.at[tip]}, "head", "joining")
	c.peers(n, "joining")
}

// refuse starts nodes that must not start.
func refuse(t *pbt.T) {
	o := options{dev: t.Bool(), newnet: true, wallet: true, admin: t.Bool()}
	what := ""
	save := false
	switch t.Intn(5) {
	case 0:
		o.miners, what = 1+t.Intn(3), "miners without a payee"
	case 1:
		o.miners, o.payout, what = 1, pbt.Pick(t, []string{"x", "zz" + strings.Repeat("0", 62), strings.Repeat("a", 63), strings.Repeat("a", 66)}), "a malformed payee"
	case 2:
		o.listen, o.addr, what = true, pbt.Pick(t, []string{"nowhere", "127.0.0.1", "127.0.0.1:70000"}), "a malformed address"
	case 3:
		save, what = true, "a save directory it cannot make"
	case 4:
		o.newnet, o.seeds, what = false, []string{spot()}, "an unreachable seed"
	}
	t.NonTrivial()
	n := newNode(t, "the node", o)
	if save {
		os.WriteFile(n.home+"/file", nil, 0o644)
		n.save = "file/x"
	}
	n.launch()
	if !eventually(patience, n.ended) {
		t.Fail("goes-on", "a node with %s goes on: bcnode %s", what, strings.Join(n.args(), " "))
	}
	n.up = false
	if st, ok := n.cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
		t.Check(st.ExitStatus() != 0, "exit", "a node with %s ends with status %d", what, st.ExitStatus())
	}
}

func TestProperty(t *testing.T) {
	pbt.Main(t, []pbt.Arm{
		{Name: "network", Rule: "Real bcnode processes: a listening hub and up to two nodes with drawn options (dev or prod, -listen, -addr, -seeds with dead ones, " +
			"-new-network, -http-wallet, -http-admin, -admin-pw, -save-dir); chains of a committed tree of development blocks are offered by a scripted peer, transactions " +
			"posted, nodes killed, ordered to end and restarted. Every node's head and rich list must become those of the heaviest chain its linked nodes hold. " +
			"Non-trivial: more than one node.",
			Quick: 100, Thorough: 1500, Chunk: 5, Retry: true, Workers: 16, StallS: 400, Run: network},
		{Name: "mine", Rule: "Mining nodes alone or over an offered chain, with a posted transaction and a follower; a block must be found within the work that makes missing it " +
			"next to impossible, include the transaction and credit the payee; as many threads work as asked. Non-trivial: all that start.",
			Quick: 5, Thorough: 60, Chunk: 1, Retry: true, Workers: 3, StallS: 800, Run: mine},
		{Name: "mesh", Rule: "Two or three nodes that know only a common seed find each other's addresses through it (one may have to find out its own), the seed goes away, " +
			"a chain is offered to one, a transaction posted, a newcomer joins by one; peer counts, heads and pending transactions must become those of a connected network. " +
			"Non-trivial: all.",
			Quick: 16, Thorough: 200, Chunk: 1, Retry: true, Workers: 8, StallS: 800, Run: mesh},
		{Name: "refuse", Rule: "Command lines that cannot be honoured; the process must end with an error. Non-trivial: all.",
			Quick: 24, Thorough: 200, Chunk: 4, Retry: true, Workers: 8, StallS: 300, Run: refuse},
	})
}
