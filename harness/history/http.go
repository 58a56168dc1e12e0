//go:build go1.25

package history

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"time"

	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/rest/client"
	"github.com/levilutz/basiccoin/internal/zverif/api"
	"github.com/levilutz/basiccoin/internal/zverif/drive"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Web asks the node over HTTP.
type Web struct {
	h *H
	S *api.Server
	// snapshots of the reference answers; an answer during a change may match any
	when string
	n    *model.Node
}

func (w *Web) fail(what string, r api.Resp, format string, a ...any) {
	w.h.T.Fail("http-"+what, "%s: %s; answer %s", w.when, fmt.Sprintf(format, a...), r)
}

// decode a JSON object with one field holding v, nothing else.
func (w *Web) decode(what string, r api.Resp, field string, v any) {
	if !r.Ok() {
		w.fail(what, r, "the query for %s fails", what)
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(r.Body, &m); err != nil {
		w.fail(what, r, "the answer is not JSON: %v", err)
	}
	raw, ok := m[field]
	if !ok {
		w.fail(what, r, "the answer has no field %s", field)
	}
	d := json.NewDecoder(bytes.NewReader(raw))
	if err := d.Decode(v); err != nil {
		w.fail(what, r, "field %s: %v", field, err)
	}
}

func hashes[V any](w *Web, what string, r api.Resp, m map[string]V) map[core.HashT]V {
	out := map[core.HashT]V{}
	for k, v := range m {
		h, err := core.NewHashTFromString(k)
		if err != nil {
			w.fail(what, r, "bad id %q", k)
		}
		out[h] = v
	}
	return out
}

// pkhs draws owners to ask about: some of the known ones, strangers, repeats.
func (w *Web) pkhs() []core.HashT {
	t := w.h.T
	var out []core.HashT
	for i := 1 + t.Intn(6); i > 0; i-- {
		switch t.Weighted(6, 1, 1) {
		case 0:
			out = append(out, gen.K(t.Intn(gen.NKeys)).Pkh)
		case 1:
			out = append(out, model.T(t.Hash32()))
		case 2:
			out = append(out, core.HashT{})
		}
	}
	return out
}

func (w *Web) balances(pkhs []core.HashT) map[core.HashT]uint64 {
	all := w.n.Ledger().Balances()
	out := map[core.HashT]uint64{}
	for _, p := range pkhs {
		out[p] = all[p]
	}
	return out
}

// ids draws ids of transactions: confirmed, pending, never offered, other entities, unknown, repeats.
func (w *Web) ids() []core.HashT {
	t, h := w.h.T, w.h
	var out []core.HashT
	for i := 1 + t.Intn(6); i > 0; i-- {
		switch t.Weighted(5, 2, 1, 1) {
		case 0:
			if n := len(h.S.TxOrder); n > 0 {
				out = append(out, h.S.TxOrder[t.Intn(n)])
			}
		case 1:
			b := h.randomBlock()
			if b != h.S.Root {
				out = append(out, b.TxIds[t.Intn(len(b.TxIds))])
			}
		case 2:
			b := h.randomBlock()
			out = append(out, pbt.Pick(t, []core.HashT{b.Id, b.B.MerkleRoot}))
		case 3:
			out = append(out, model.T(t.Hash32()))
		}
	}
	if len(out) == 0 {
		out = append(out, core.HashT{})
	}
	return out
}

func jsonTx(tx core.Tx) string {
	s := fmt.Sprintf("%v|%d|", tx.IsCoinbase, tx.MinBlock)
	for _, i := range tx.Inputs {
		s += fmt.Sprintf("%s,%d,%d,%x,%x;", i.Utxo.TxId, i.Utxo.Ind, i.Utxo.Value, i.PublicKey, i.Signature)
	}
	s += "|"
	for _, o := range tx.Outputs {
		s += fmt.Sprintf("%d,%s;", o.Value, o.PublicKeyHash)
	}
	return s
}

// A question is a query together with how to judge its answer against w.n.
type question struct {
	what string
	ask  func() api.Resp
	// judge fails through w.fail
	judge func(w *Web, r api.Resp)
}

// draw a question.
func (w *Web) draw() question {
	t, h := w.h.T, w.h
	s := w.S
	switch t.Weighted(3, 4, 3, 3, 3, 2, 2, 2, 2) {
	case 0:
		p := w.pkhs()
		return question{"balance", func() api.Resp { return s.Get("/wallet/balance", api.Ids("publicKeyHash", p)...) },
			func(w *Web, r api.Resp) {
				var m map[string]uint64
				w.decode("balance", r, "balances", &m)
				if d := Diff(hashes(w, "balance", r, m), w.balances(p), short); d != "" {
					w.fail("balance", r, "balances: %s", d)
				}
			}}
	case 1:
		p := w.pkhs()
		ex := t.Intn(5)
		val := []string{"", "true", "false", "TRUE", "True"}[ex]
		excl := ex == 1 || ex >= 3
		q := api.Ids("publicKeyHash", p)
		if val != "" {
			q = append(q, "excludeMempool", val)
		}
		return question{"utxos", func() api.Resp { return s.Get("/wallet/utxos", q...) }, func(w *Web, r api.Resp) {
			var ls []struct {
				Utxo struct {
					TxId  string
					Ind   uint64
					Value uint64
				}
				Pkh string
			}
			w.decode("utxos", r, "utxos", &ls)
			got := map[core.Utxo]core.HashT{}
			for _, x := range ls {
				id, e1 := core.NewHashTFromString(x.Utxo.TxId)
				o, e2 := core.NewHashTFromString(x.Pkh)
				if e1 != nil || e2 != nil {
					w.fail("utxos", r, "bad ids")
				}
				u := core.Utxo{TxId: id, Ind: x.Utxo.Ind, Value: x.Utxo.Value}
				if _, ok := got[u]; ok {
					w.fail("utxos", r, "%s is listed twice", utxoStr(u))
				}
				got[u] = o
			}
			if d := Diff(got, w.n.Utxos(p, excl), utxoStr); d != "" {
				w.fail("utxos", r, "unspent outputs (excludeMempool=%s): %s", val, d)
			}
		}}
	case 2:
		ids := w.ids()
		return question{"confirms", func() api.Resp { return s.Get("/wallet/tx/confirms", api.Ids("txId", ids)...) }, func(w *Web, r api.Resp) {
			var m map[string]uint64
			w.decode("confirms", r, "confirms", &m)
			want := map[core.HashT]uint64{}
			for _, id := range ids {
				if c, ok := w.n.Confirms(id); ok {
					want[id] = c
				}
			}
			if d := Diff(hashes(w, "confirms", r, m), want, short); d != "" {
				w.fail("confirms", r, "confirmations: %s", d)
			}
		}}
	case 3:
		ids := w.ids()
		return question{"inclusion", func() api.Resp { return s.Get("/wallet/tx/block", api.Ids("txId", ids)...) }, func(w *Web, r api.Resp) {
			var m map[string]core.HashT
			w.decode("inclusion", r, "includedBlocks", &m)
			want := map[core.HashT]core.HashT{}
			l := w.n.Ledger()
			for _, id := range ids {
				if b, ok := l.Included[id]; ok {
					want[id] = b.Id
				}
			}
			if d := Diff(hashes(w, "inclusion", r, m), want, short); d != "" {
				w.fail("inclusion", r, "inclusion blocks: %s", d)
			}
		}}
	case 4: // rich list
		k := t.Intn(7)
		all := len(w.n.Ledger().Balances())
		var max uint64
		q := []string{}
		switch k {
		case 0:
			max = 10
		case 1:
			max = 0
		case 2:
			max = 1
		case 3:
			max = uint64(all)
		case 4:
			max = uint64(all) + 1
		case 5:
			max = t.U64()
		case 6:
			max = t.Draw(uint64(all) + 1)
		}
		if k > 0 {
			q = []string{"maxLen", strconv.FormatUint(max, 10)}
		}
		return question{"richlist", func() api.Resp { return s.Get("/wallet/richlist", q...) }, func(w *Web, r api.Resp) {
			var m map[string]uint64
			w.decode("richlist", r, "richList", &m)
			got := hashes(w, "richlist", r, m)
			all := w.n.Ledger().Balances()
			if d := richDiff(got, all, max); d != "" {
				w.fail("richlist", r, "rich list of %d: %s", max, d)
			}
		}}
	case 5:
		return question{"height", func() api.Resp { return s.Get("/wallet/head/height") }, func(w *Web, r api.Resp) {
			if !r.Ok() || string(r.Body) != fmt.Sprint(w.n.Head.Height) {
				w.fail("height", r, "the head's height is %d", w.n.Head.Height)
			}
		}}
	case 6:
		ids := w.ids()
		return question{"tx", func() api.Resp { return s.Get("/wallet/tx", api.Ids("txId", ids)...) }, func(w *Web, r api.Resp) {
			want := map[core.HashT]string{}
			for _, id := range ids {
				if tx, ok := w.n.W.Txs[id]; ok {
					want[id] = jsonTx(tx)
				}
			}
			if len(want) == 0 {
				if !r.ClientError() {
					w.fail("tx", r, "none of the transactions is known")
				}
				return
			}
			var m map[string]core.Tx
			w.decode("tx", r, "txs", &m)
			got := map[core.HashT]string{}
			for k, v := range hashes(w, "tx", r, m) {
				got[k] = jsonTx(v)
			}
			if d := Diff(got, want, short); d != "" {
				w.fail("tx", r, "transactions: %s", d)
			}
		}}
	case 7:
		var ids []core.HashT
		for i := 1 + t.Intn(4); i > 0; i-- {
			b := h.randomBlock()
			m := h.specs[b.Id].Merkles
			if len(m) > 0 && t.Draw(4) != 3 {
				ids = append(ids, model.Mid(m[t.Intn(len(m))]))
			} else {
				ids = append(ids, pbt.Pick(t, []core.HashT{b.Id, model.T(t.Hash32()), {}}))
			}
		}
		return question{"merkle", func() api.Resp { return s.Get("/wallet/merkle", api.Ids("merkleId", ids)...) }, func(w *Web, r api.Resp) {
			want := map[core.HashT]core.MerkleNode{}
			for _, id := range ids {
				if m, ok := w.n.W.Merkles[id]; ok {
					want[id] = m.M
				}
			}
			if len(want) == 0 {
				if !r.ClientError() {
					w.fail("merkle", r, "none of the merkle nodes is known")
				}
				return
			}
			var m map[string]core.MerkleNode
			w.decode("merkle", r, "merkles", &m)
			if d := Diff(hashes(w, "merkle", r, m), want, short); d != "" {
				w.fail("merkle", r, "merkle nodes: %s", d)
			}
		}}
	default:
		var ids []core.HashT
		for i := 1 + t.Intn(4); i > 0; i-- {
			b := h.randomBlock()
			if t.Draw(4) != 3 {
				ids = append(ids, b.Id)
			} else {
				ids = append(ids, pbt.Pick(t, []core.HashT{b.B.MerkleRoot, model.T(t.Hash32()), {}}))
			}
		}
		return question{"block", func() api.Resp { return s.Get("/wallet/block", api.Ids("blockId", ids)...) }, func(w *Web, r api.Resp) {
			want := map[core.HashT]core.Block{}
			for _, id := range ids {
				if b, ok := w.n.W.Blocks[id]; ok {
					want[id] = b.B
				}
			}
			// the placeholder below the first block may be shown or not
			var m map[string]core.Block
			got := map[core.HashT]core.Block{}
			if r.Ok() {
				w.decode("block", r, "blocks", &m)
				got = hashes(w, "block", r, m)
			} else if !r.ClientError() {
				w.fail("block", r, "the query fails")
			}
			delete(got, core.HashT{})
			delete(want, core.HashT{})
			if d := Diff(got, want, short); d != "" {
				w.fail("block", r, "blocks: %s", d)
			}
		}}
	}
}

// richDiff judges a rich list; owners of equal balances may stand for one another.
func richDiff(got, all map[core.HashT]uint64, max uint64) string {
	var top []uint64
	for _, v := range all {
		top = append(top, v)
	}
	sort.Slice(top, func(i, j int) bool { return top[i] > top[j] })
	if uint64(len(top)) > max {
		top = top[:max]
	}
	var have []uint64
	for p, v := range got {
		if all[p] != v {
			return fmt.Sprintf("%s has %d, listed with %d", short(p), all[p], v)
		}
		have = append(have, v)
	}
	sort.Slice(have, func(i, j int) bool { return have[i] > have[j] })
	if fmt.Sprint(have) != fmt.Sprint(top) {
		return fmt.Sprintf("lists balances %v, the highest are %v", have, top)
	}
	return ""
}

// Ask some questions, perhaps several at once.
func (w *Web) Ask(most int) {
	t := w.h.T
	for n := t.Intn(most + 1); n > 0; n-- {
		q := w.draw()
		w.when = "query for " + q.what
		r := q.ask()
		t.Label("query " + q.what)
		q.judge(w, r)
	}
	if t.Draw(6) == 5 {
		var qs []question
		for n := 2 + t.Intn(4); n > 0; n-- {
			qs = append(qs, w.draw())
		}
		w.when = fmt.Sprintf("%d queries at once", len(qs))
		rs := askAll(w.S, qs)
		for i := range qs {
			qs[i].judge(w, rs[i])
		}
		t.Label("queries at once")
	}
	if t.Draw(6) == 5 {
		w.client()
	}
}

func askAll(s *api.Server, qs []question) []api.Resp {
	rs := make([]api.Resp, len(qs))
	done := make(chan any, len(qs))
	for i := range qs {
		go func() {
			defer func() { done <- recover() }()
			rs[i] = qs[i].ask()
		}()
	}
	for range qs {
		if p := <-done; p != nil {
			panic(p)
		}
	}
	return rs
}

// client asks through the wallet's client library.
func (w *Web) client() {
	t := w.h.T
	bad := func(what string, err error, d string) {
		if err != nil {
			t.Fail("client-"+what, "the client's query for %s fails: %v", what, err)
		}
		if d != "" {
			t.Fail("client-"+what, "the client's answer for %s: %s", what, d)
		}
	}
	c, err := client.NewWalletClient(w.S.Base, "v1")
	bad("version", err, "")
	_, err = client.NewWalletClient(w.S.Base, "v2")
	if err == nil {
		t.Fail("client-version", "the client accepts a node of another version")
	}
	switch t.Intn(7) {
	case 0:
		g, err := c.GetHeadHeight()
		d := ""
		if g != w.n.Head.Height {
			d = fmt.Sprintf("height %d, should be %d", g, w.n.Head.Height)
		}
		bad("height", err, d)
	case 1:
		p := w.pkhs()
		g, err := c.GetManyBalances(p)
		bad("balances", err, Diff(g, w.balances(p), short))
		b, err := c.GetBalance(p[0])
		d := ""
		if b != w.balances(p)[p[0]] {
			d = fmt.Sprintf("%d, should be %d", b, w.balances(p)[p[0]])
		}
		bad("balance", err, d)
	case 2:
		p := w.pkhs()
		ex := t.Bool()
		g, err := c.GetManyUtxos(p, ex)
		bad("utxos", err, Diff(g, w.n.Utxos(p, ex), utxoStr))
	case 3:
		ids := w.ids()
		g, err := c.GetTxConfirms(ids)
		want := map[core.HashT]uint64{}
		for _, id := range ids {
			if n, ok := w.n.Confirms(id); ok {
				want[id] = n
			}
		}
		bad("confirms", err, Diff(g, want, short))
		g2, err := c.GetTxIncludedBlock(ids)
		want2 := map[core.HashT]core.HashT{}
		l := w.n.Ledger()
		for _, id := range ids {
			if b, ok := l.Included[id]; ok {
				want2[id] = b.Id
			}
		}
		bad("inclusion", err, Diff(g2, want2, short))
	case 4:
		max := t.Draw(12)
		g, err := c.GetRichList(max)
		bad("richlist", err, richDiff(g, w.n.Ledger().Balances(), max))
	case 5:
		if len(w.n.W.TxOrder) > 0 {
			id := pbt.Pick(t, w.n.W.TxOrder)
			g, err := c.GetTx([]core.HashT{id})
			d := ""
			if err == nil && (len(g) != 1 || jsonTx(g[id]) != jsonTx(w.n.W.Txs[id])) {
				d = "another transaction"
			}
			bad("tx", err, d)
		}
	case 6:
		b := w.n.Head
		if b.Height > 0 {
			g, err := c.GetBlock([]core.HashT{b.Id})
			bad("block", err, Diff(g, map[core.HashT]core.Block{b.Id: b.B}, short))
			m, err := c.GetMerkle([]core.HashT{b.B.MerkleRoot})
			bad("merkle", err, Diff(m, map[core.HashT]core.MerkleNode{b.B.MerkleRoot: w.n.W.Merkles[b.B.MerkleRoot].M}, short))
		}
	}
	t.Label("client")
}

// during asks while an offer is being handled: each answer must be right for
// the ledger before or after it.
func (w *Web) during() {
	h, t := w.h, w.h.T
	b := h.Fork(h.forkPoint(), 3)
	e := h.Segment(b)
	var qs []question
	for n := 1 + t.Intn(5); n > 0; n-- {
		q := w.draw()
		if q.what == "tx" || q.what == "merkle" || q.what == "block" {
			continue // entities appear one by one
		}
		qs = append(qs, q)
	}
	before := *h.N
	before.W = h.N.W.Clone()
	r := h.model(e)
	after := h.N
	delay := t.Intn(3)
	done := make(chan any, 1)
	var rs []api.Resp
	go func() {
		defer func() { done <- recover() }()
		rs = askAll(w.S, qs)
	}()
	if delay > 0 && !drive.Real.Load() {
		time.Sleep(time.Duration(delay) * 20 * time.Millisecond)
	}
	h.D.Bus.CandidateHead.Pub(e)
	if p := <-done; p != nil {
		panic(p)
	}
	h.D.Settle()
	for i, q := range qs {
		ok := false
		var last any
		for _, n := range []*model.Node{&before, after} {
			w.n = n
			w.when = "query for " + q.what + " during an offer"
			func() {
				defer func() {
					if p := recover(); p != nil {
						last = p
					} else {
						ok = true
					}
				}()
				q.judge(w, rs[i])
			}()
			if ok {
				break
			}
		}
		w.n = after
		if !ok {
			panic(last)
		}
	}
	t.Label("queries during an offer")
	h.Compare(r)
}

// webFocus is the base of the properties over HTTP.
func webRun(t *pbt.T, p rest.Params, f Focus, during bool, step func(w *Web)) {
	drive.Real.Store(!api.Mounted())
	prm := gen.Params(t)
	d := drive.New(t, prm, true, nil, nil)
	s := api.Start(t, p, d.Bus, d.Inv)
	h := New(t, prm, d, f)
	w := &Web{h: h, S: s, n: h.N}
	h.Compare("start")
	for n := t.Intn(7); n > 0; n-- {
		if b := h.Extend(h.sOf(h.N.Head), f.AvgTx); b != nil {
			h.Offer(h.Segment(b))
		}
	}
	step(w)
	t.Steps(1, 8, 25, func(int) {
		if during && t.Draw(8) == 7 {
			w.during()
		} else {
			h.Step()
		}
		step(w)
	})
	h.Compare("queries")
}

// ArmQueries is the arm of C11.
func ArmQueries() pbt.Arm {
	quick, chunk := 600, 20
	if !api.Mounted() {
		quick, chunk = 24, 3
	}
	return pbt.Arm{Name: "queries", Rule: "Random histories of chain segments and transactions as for the fork choice; after every step wallet " +
		"queries over HTTP (raw and through the wallet's client library, one by one, several at once, and while an offer is being handled) for drawn " +
		"owners, transactions, blocks, merkle nodes and list lengths, known and unknown, are compared with the replayed ledger. " +
		"Non-trivial: the chain has a block with a payment, or a pending transaction.",
		Quick: quick, Thorough: quick * 20, Chunk: chunk, Bubble: api.Mounted(), Run: func(t *pbt.T) {
			webRun(t, rest.Params{EnableWallet: true, Version: "v1"}, Focus{AvgTx: 2, W: []int{5, 4, 2, 3, 2, 8, 0, 1, 1},
				Own: []string{"balances", "utxos", "pending", "confirms", "inclusion", "richlist", "height"}}, true, func(w *Web) {
				w.Ask(5)
				if len(w.n.Pending()) > 0 {
					t.NonTrivial()
				}
				for b := w.n.Head; b != w.n.W.Root; b = b.Parent {
					if len(b.TxIds) > 1 {
						t.NonTrivial()
						break
					}
				}
			})
		}}
}
