//go:build go1.25

// Package rules drives the node's inventory (the store of verified transactions,
// merkle nodes and blocks) with generated valid and nearly valid entities and
// compares every verdict with the reference rules.
package rules

import (
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/x509"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Now is the node's clock (fake inside a bubble).
func Now() uint64 { return uint64(time.Now().Unix()) }

// M is the machine: the real inventory and the reference world side by side.
type M struct {
	T    *pbt.T
	W    *model.World
	I    *inv.Inv
	Tips []*model.Block // accepted blocks, in order
	salt uint64
	nMut int
	own  []string
}

// Mine says whether a kind of mismatch belongs to the property under test.
func (m *M) mine(kinds ...string) bool {
	if m.own == nil {
		return true
	}
	for _, k := range kinds {
		for _, o := range m.own {
			if k == o {
				return true
			}
		}
	}
	return false
}

func (m *M) other() {
	m.T.Label("stopped: mismatch of another property")
	m.T.Discard()
}

// New makes a machine over an empty inventory.
func New(t *pbt.T, p core.Params) *M {
	m := &M{T: t, W: model.NewWorld(p, Now), I: inv.NewInv(p, nil)}
	m.Tips = []*model.Block{m.W.Root}
	t.Note("%s", gen.ParamsLine(p))
	return m
}

func short(h core.HashT) string { return h.String()[:8] }

// TxLine describes a transaction.
func TxLine(tx core.Tx) string {
	s := ""
	if tx.IsCoinbase {
		s = "coinbase "
	}
	s += fmt.Sprintf("tx %s min=%d size=%d in=[", short(model.Tid(tx)), tx.MinBlock, model.TxVSize(tx))
	for i, in := range tx.Inputs {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%s[%d]=%d", short(in.Utxo.TxId), in.Utxo.Ind, in.Utxo.Value)
	}
	s += "] out=["
	for i, o := range tx.Outputs {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%d", o.Value)
	}
	return s + "]"
}

func (m *M) verdict(kind string, r model.Reasons, err error, line string, extra string) bool {
	t := m.T
	if r.Ok() && err == nil {
		t.Label(kind + ":accepted")
		t.Note("%s%s: accepted", extra, line)
		return true
	}
	if !r.Ok() && err != nil {
		t.Label(kind + ":refused:" + strings.Join(r.R, "+"))
		t.Note("%s%s: refused (%s)", extra, line, r)
		return false
	}
	if r.Ok() && r.Maybe {
		t.Label(kind + ":undecided")
		t.Note("%s%s: amounts beyond 64 bits, node says %v", extra, line, err)
		return err == nil
	}
	if err == nil {
		if !m.mine(r.R...) {
			m.other()
		}
		t.Fail("accepted-"+kind+":"+strings.Join(r.R, "+"), "the node accepts %s%s, which breaks: %s", extra, line, r)
	}
	if !m.mine("refused-" + kind) {
		m.other()
	}
	t.Fail("refused-valid-"+kind, "the node refuses %s%s, which is valid: %v", extra, line, err)
	return false
}

// Tx offers a transaction to both.
func (m *M) Tx(tx core.Tx, why string) bool {
	id := model.Tid(tx)
	if _, ok := m.W.Txs[id]; ok {
		return true
	}
	r := m.W.CheckTx(tx)
	err := m.I.StoreTx(tx)
	if m.verdict("tx", r, err, TxLine(tx), why) {
		m.W.PutTx(tx)
		m.T.Check(m.I.HasTx(id), "tx-not-stored", "an accepted transaction is not stored: %s", TxLine(tx))
		return true
	}
	m.T.Check(!m.I.HasTx(id), "refused-tx-stored", "a refused transaction is stored: %s", TxLine(tx))
	return false
}

// Merkle offers a merkle node to both.
func (m *M) Merkle(n core.MerkleNode, why string) bool {
	id := model.Mid(n)
	if _, ok := m.W.Merkles[id]; ok {
		return true
	}
	r := m.W.CheckMerkle(n)
	err := m.I.StoreMerkle(n)
	line := fmt.Sprintf("merkle %s(%s,%s)", short(id), short(n.LChild), short(n.RChild))
	if m.verdict("merkle", r, err, line, why) {
		m.W.PutMerkle(n)
		return true
	}
	m.T.Check(!m.I.HasMerkle(id), "refused-merkle-stored", "a refused merkle node is stored: %s", line)
	return false
}

// BlockLine describes a block.
func (m *M) BlockLine(b core.Block) string {
	s := fmt.Sprintf("block %s parent=%s root=%s target=%s..%s time=now%+d", short(model.Bid(b)), short(b.PrevBlockId),
		short(b.MerkleRoot), b.Target.String()[:8], b.Target.String()[60:], int64(b.MinedTime-m.W.Now()))
	if p, ok := m.W.Blocks[b.PrevBlockId]; ok {
		s += fmt.Sprintf(" height=%d", p.Height+1)
	}
	return s
}

// Block offers a block to both.
func (m *M) Block(b core.Block, why string) bool {
	id := model.Bid(b)
	if _, ok := m.W.Blocks[id]; ok {
		return true
	}
	r := m.W.CheckBlock(b)
	err := m.I.StoreBlock(b)
	if m.verdict("block", r, err, m.BlockLine(b), why) {
		x := m.W.PutBlock(b)
		m.Tips = append(m.Tips, x)
		m.T.Check(!m.mine("height") || m.I.GetBlockHeight(id) == x.Height, "height", "height %d of %s, should be %d",
			m.I.GetBlockHeight(id), m.BlockLine(b), x.Height)
		m.T.Check(!m.mine("height") || m.I.GetBlockTotalWork(id) == model.FromBig(x.Work), "work", "total work of %s is %s, should be %s",
			m.BlockLine(b), m.I.GetBlockTotalWork(id), model.FromBig(x.Work))
		m.CanTarget(x)
		return true
	}
	m.T.Check(!m.I.HasBlock(id), "refused-block-stored", "a refused block is stored: %s", m.BlockLine(b))
	return false
}

// CanTarget checks the next target after an accepted block.
func (m *M) CanTarget(x *model.Block) {
	if got, want := m.nextTarget(x), m.W.NextTarget(x); got != want {
		m.mismatch(x, got, want)
	}
}

func (m *M) nextTarget(x *model.Block) core.HashT {
	defer func() {
		if r := recover(); r != nil {
			if !m.mine("next-target-panics") {
				m.other()
			}
			m.T.Fail("next-target-panics", "after %s at height %d the next target cannot be computed: %v",
				m.BlockLine(x.B), x.Height, r)
		}
	}()
	return core.NextTarget(m.W.P, m.I, x.Id)
}

func (m *M) mismatch(x *model.Block, got, want core.HashT) {
	if !m.mine("next-target") {
		m.other()
	}
	m.T.Fail("next-target", "after %s at height %d the next target is %s, should be %s", m.BlockLine(x.B), x.Height, got, want)
}

// Spec offers all parts of a block in order; false at the first refused one.
func (m *M) Spec(s gen.Spec, why string) bool {
	for _, tx := range s.Txs {
		if !m.Tx(tx, why) {
			return false
		}
	}
	for _, n := range s.Merkles {
		if !m.Merkle(n, why) {
			return false
		}
	}
	return m.Block(s.Block, why)
}

// Parent draws an existing block, mostly a recent one.
func (m *M) Parent() *model.Block {
	n := len(m.Tips)
	if m.T.Weighted(7, 2) == 0 {
		// the highest
		best := m.Tips[0]
		for _, b := range m.Tips {
			if b.Height > best.Height {
				best = b
			}
		}
		return best
	}
	return m.Tips[n-1-m.T.Intn(n)]
}

func (m *M) Salt() uint64 { m.salt++; return m.salt }

// Valid draws a valid block on a parent whose chain is valid.
func (m *M) Valid(parent *model.Block, avgTx int) gen.Spec {
	t := m.T
	l := m.W.LedgerAt(parent)
	var txs []core.Tx
	if l.Bad == "" {
		txs = gen.Fill(t, m.W, l, parent.Height+1, avgTx, 6, nil)
	}
	tg := gen.NextBlockTarget(t, m.W, parent)
	return gen.Block(m.W, parent, txs, gen.BlockOpts{
		Pay: gen.K(t.Intn(gen.NKeys)).Pkh, Time: gen.BlockTime(t, m.W, parent), Target: &tg,
		Shape: gen.Shape(t), Salt: m.Salt(),
	})
}

// Grow adds n valid blocks.
func (m *M) Grow(n, avgTx int) {
	for i := 0; i < n; i++ {
		p := m.Tips[len(m.Tips)-1]
		m.Spec(m.Valid(p, avgTx), "")
	}
}

// Focus weighs the kinds of mutations.
type Focus struct {
	Tx     []TxMut
	Block  []BlockMut
	Merkle bool
	Grow   int // most initial blocks
	Own    []string
	AvgTx  int
}

// TxMut turns a drawn transaction into a nearly valid one. It may use spare coins.
type TxMut struct {
	Name string
	F    func(m *M, tx *core.Tx, coins []gen.Coin)
}

// BlockMut changes a block under construction.
type BlockMut struct {
	Name string
	F    func(m *M, parent *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx
	Post func(m *M, parent *model.Block, s *gen.Spec)
}

var rsaPub, edPub []byte

func init() {
	p, _ := pem.Decode([]byte(rsaPEM))
	if k, err := x509.ParsePKCS1PublicKey(p.Bytes); err == nil {
		rsaPub, _ = x509.MarshalPKIXPublicKey(k)
	} else {
		// any syntactically valid RSA key
		n := new(big.Int).Lsh(big.NewInt(1), 1023)
		n.Add(n, big.NewInt(0x10001))
		rsaPub, _ = x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: n, E: 65537})
	}
	edPub, _ = x509.MarshalPKIXPublicKey(ed25519.PublicKey(make([]byte, 32)))
}

const rsaPEM = "-----BEGIN RSA PUBLIC KEY-----\nMAAA\n-----END RSA PUBLIC KEY-----\n"

func u64bytes(v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[:]
}

func inSum(tx *core.Tx) uint64 {
	s := uint64(0)
	for _, i := range tx.Inputs {
		s += i.Utxo.Value
	}
	return s
}

func pickIn(m *M, tx *core.Tx) int { return m.T.Intn(len(tx.Inputs)) }

// Amount mutations.
var CoinMuts = []TxMut{
	{"outs-equal-ins", func(m *M, tx *core.Tx, _ []gen.Coin) {
		tx.Outputs = []core.TxOut{{Value: inSum(tx), PublicKeyHash: gen.K(0).Pkh}}
		gen.Resign(tx)
	}},
	{"outs-off-by-small", func(m *M, tx *core.Tx, _ []gen.Coin) {
		v := inSum(tx) + 2 - m.T.Draw(5)
		tx.Outputs = []core.TxOut{{Value: v, PublicKeyHash: gen.K(0).Pkh}}
		gen.Resign(tx)
	}},
	{"outs-wrap-two", func(m *M, tx *core.Tx, _ []gen.Coin) {
		s := inSum(tx)
		a := m.T.U64()
		// a + b = s-1 (mod 2^64)
		b := s - 1 - m.T.Draw(3) - a
		tx.Outputs = []core.TxOut{{Value: a, PublicKeyHash: gen.K(0).Pkh}, {Value: b, PublicKeyHash: gen.K(1).Pkh}}
		gen.Resign(tx)
	}},
	{"outs-wrap-many", func(m *M, tx *core.Tx, _ []gen.Coin) {
		s := inSum(tx)
		n := 2 + m.T.Intn(5)
		sum := uint64(0)
		tx.Outputs = nil
		for i := 0; i < n; i++ {
			v := uint64(1) << (60 + m.T.Draw(4))
			if i == n-1 {
				v = s - 1 - m.T.Draw(2) - sum
			}
			sum += v
			tx.Outputs = append(tx.Outputs, core.TxOut{Value: v, PublicKeyHash: gen.K(i % gen.NKeys).Pkh})
		}
		gen.Resign(tx)
	}},
	{"outs-huge", func(m *M, tx *core.Tx, _ []gen.Coin) {
		tx.Outputs = append(tx.Outputs, core.TxOut{Value: m.T.U64(), PublicKeyHash: gen.K(0).Pkh})
		gen.Resign(tx)
	}},
	{"claim-other-amount", func(m *M, tx *core.Tx, _ []gen.Coin) {
		i := pickIn(m, tx)
		switch m.T.Weighted(2, 2, 1) {
		case 0:
			tx.Inputs[i].Utxo.Value++
		case 1:
			tx.Inputs[i].Utxo.Value = m.T.U64()
		case 2:
			tx.Inputs[i].Utxo.Value--
		}
		if m.T.Bool() {
			tx.Outputs = []core.TxOut{{Value: tx.Inputs[i].Utxo.Value - 1, PublicKeyHash: gen.K(0).Pkh}}
			gen.Resign(tx)
		}
	}},
	{"no-inputs", func(m *M, tx *core.Tx, _ []gen.Coin) {
		tx.Inputs = []core.TxIn{}
		if m.T.Bool() {
			tx.Outputs = []core.TxOut{}
		}
	}},
}

// Mutations about which outputs are consumed.
var SpendMuts = []TxMut{
	{"same-input-twice", func(m *M, tx *core.Tx, _ []gen.Coin) {
		i := pickIn(m, tx)
		dup := tx.Inputs[i]
		if m.T.Bool() {
			tx.Inputs = append(tx.Inputs, dup)
		} else {
			tx.Inputs = append([]core.TxIn{dup}, tx.Inputs...)
		}
		if m.T.Bool() { // spend the doubled amount
			tx.Outputs = []core.TxOut{{Value: inSum(tx) - 1, PublicKeyHash: gen.K(0).Pkh}}
			gen.Resign(tx)
		}
	}},
	{"same-output-other-amount", func(m *M, tx *core.Tx, _ []gen.Coin) {
		dup := tx.Inputs[pickIn(m, tx)]
		dup.Utxo.Value += 1 + m.T.Draw(3)
		tx.Inputs = append(tx.Inputs, dup)
	}},
	{"unknown-tx", func(m *M, tx *core.Tx, _ []gen.Coin) {
		h := model.D(tx.Inputs[pickIn(m, tx)].Utxo.TxId)
		h[m.T.Intn(32)] ^= 1
		tx.Inputs[pickIn(m, tx)].Utxo.TxId = model.T(h)
	}},
	{"unknown-index", func(m *M, tx *core.Tx, _ []gen.Coin) {
		i := pickIn(m, tx)
		src := m.W.Txs[tx.Inputs[i].Utxo.TxId]
		n := uint64(len(src.Outputs))
		tx.Inputs[i].Utxo.Ind = []uint64{n, n + 1, tx.Inputs[i].Utxo.Ind + 1, 1 << 31, 1 << 32, 1 << 63, ^uint64(0), tx.Inputs[i].Utxo.Ind - 1}[m.T.Intn(8)]
	}},
	{"other-index", func(m *M, tx *core.Tx, _ []gen.Coin) {
		i := pickIn(m, tx)
		src := m.W.Txs[tx.Inputs[i].Utxo.TxId]
		if n := len(src.Outputs); n > 0 {
			tx.Inputs[i].Utxo.Ind = uint64(m.T.Intn(n))
		}
	}},
	{"own-output", func(m *M, tx *core.Tx, _ []gen.Coin) { // of a transaction stored nowhere
		tx.Inputs[pickIn(m, tx)].Utxo.TxId = model.Tid(*tx)
	}},
}

// Mutations of keys and signatures.
var AuthMuts = []TxMut{
	{"foreign-key-signs", func(m *M, tx *core.Tx, _ []gen.Coin) {
		i := pickIn(m, tx)
		k := gen.K(m.T.Intn(gen.NKeys + 2))
		tx.Inputs[i].PublicKey = append([]byte{}, k.Pub...)
		tx.Inputs[i].Signature = k.Sign(model.SigDigest(tx.MinBlock, tx.Outputs))
	}},
	{"foreign-signature", func(m *M, tx *core.Tx, _ []gen.Coin) {
		k := gen.K(m.T.Intn(gen.NKeys + 2))
		tx.Inputs[pickIn(m, tx)].Signature = k.Sign(model.SigDigest(tx.MinBlock, tx.Outputs))
	}},
	{"owner-key-unowned-coin", func(m *M, tx *core.Tx, _ []gen.Coin) {
		k := gen.CurveKey(m.T.Intn(3), 1+m.T.Intn(2))
		i := pickIn(m, tx)
		tx.Inputs[i].PublicKey = append([]byte{}, k.Pub...)
		tx.Inputs[i].Signature = k.Sign(model.SigDigest(tx.MinBlock, tx.Outputs))
	}},
	{"sig-over-other-outputs", func(m *M, tx *core.Tx, _ []gen.Coin) {
		switch m.T.Intn(6) {
		case 0:
			tx.Outputs = append(tx.Outputs, core.TxOut{Value: 0, PublicKeyHash: gen.K(0).Pkh})
		case 1:
			if len(tx.Outputs) > 0 {
				tx.Outputs[m.T.Intn(len(tx.Outputs))].PublicKeyHash = gen.K(m.T.Intn(gen.NKeys + 1)).Pkh
			}
		case 2:
			if len(tx.Outputs) > 0 {
				tx.Outputs[m.T.Intn(len(tx.Outputs))].Value--
			}
		case 3:
			if n := len(tx.Outputs); n > 0 {
				tx.Outputs = tx.Outputs[:n-1]
			}
		case 4:
			if n := len(tx.Outputs); n > 1 {
				tx.Outputs[0], tx.Outputs[n-1] = tx.Outputs[n-1], tx.Outputs[0]
			}
		case 5:
			if n := len(tx.Outputs); n > 0 {
				o := &tx.Outputs[m.T.Intn(n)]
				h := model.D(o.PublicKeyHash)
				h[m.T.Intn(32)] ^= 1 << m.T.Draw(8)
				o.PublicKeyHash = model.T(h)
			}
		}
	}},
	{"sig-over-other-height", func(m *M, tx *core.Tx, _ []gen.Coin) {
		tx.MinBlock += 1 + m.T.Draw(3)
		if m.T.Draw(4) == 3 {
			tx.MinBlock = m.T.U64()
		}
	}},
	{"sig-damaged", func(m *M, tx *core.Tx, _ []gen.Coin) {
		s := tx.Inputs[pickIn(m, tx)].Signature
		if len(s) < 20 { // damaged already
			return
		}
		switch m.T.Intn(4) {
		case 0:
			s[m.T.Intn(len(s))] ^= 1 << m.T.Draw(8)
		case 1:
			s[len(s)-1-m.T.Intn(20)] ^= 1 << m.T.Draw(8)
		}
		if m.T.Intn(4) == 3 {
			if s := tx.Inputs[pickIn(m, tx)].Signature; len(s) > 0 {
				tx.Inputs[pickIn(m, tx)].Signature = s[:m.T.Intn(len(s))]
			}
		}
	}},
	{"sig-extended", func(m *M, tx *core.Tx, _ []gen.Coin) {
		i := pickIn(m, tx)
		tx.Inputs[i].Signature = append(tx.Inputs[i].Signature, m.T.Bytes(1+m.T.Intn(4))...)
	}},
	{"sig-empty", func(m *M, tx *core.Tx, _ []gen.Coin) { tx.Inputs[pickIn(m, tx)].Signature = []byte{} }},
	{"sig-zeros", func(m *M, tx *core.Tx, _ []gen.Coin) {
		// r = s = 0, 1 and the like
		a, b := byte(m.T.Draw(3)), byte(m.T.Draw(3))
		tx.Inputs[pickIn(m, tx)].Signature = []byte{0x30, 6, 2, 1, a, 2, 1, b}
	}},
	{"key-damaged", func(m *M, tx *core.Tx, _ []gen.Coin) {
		i := pickIn(m, tx)
		p := tx.Inputs[i].PublicKey
		if len(p) == 0 {
			return
		}
		switch m.T.Intn(4) {
		case 0:
			p[m.T.Intn(len(p))] ^= 1 << m.T.Draw(8)
		case 1:
			tx.Inputs[i].PublicKey = p[:m.T.Intn(len(p))]
		case 2:
			tx.Inputs[i].PublicKey = append(p, m.T.Bytes(1+m.T.Intn(3))...)
		case 3:
			tx.Inputs[i].PublicKey = [][]byte{rsaPub, edPub, {}}[m.T.Intn(3)]
		}
	}},
	{"swap-between-inputs", func(m *M, tx *core.Tx, _ []gen.Coin) {
		a, b := pickIn(m, tx), pickIn(m, tx)
		x, y := &tx.Inputs[a], &tx.Inputs[b]
		if m.T.Bool() {
			x.Signature, y.Signature = y.Signature, x.Signature
		} else {
			x.PublicKey, y.PublicKey = y.PublicKey, x.PublicKey
		}
	}},
	{"extra-unsigned-input", func(m *M, tx *core.Tx, coins []gen.Coin) {
		if len(coins) == 0 {
			return
		}
		c := coins[m.T.Intn(len(coins))]
		in := core.TxIn{Utxo: c.U, PublicKey: append([]byte{}, c.K.Pub...), Signature: tx.Inputs[0].Signature}
		if m.T.Bool() {
			in.Signature = []byte{}
		}
		if m.T.Bool() { // somebody else's coin, with own key and good signature
			in.PublicKey, in.Signature = tx.Inputs[0].PublicKey, tx.Inputs[0].Signature
		}
		at := m.T.Intn(len(tx.Inputs) + 1)
		tx.Inputs = append(tx.Inputs[:at:at], append([]core.TxIn{in}, tx.Inputs[at:]...)...)
	}},
	{"amount-not-covered", func(m *M, tx *core.Tx, _ []gen.Coin) { tx.Inputs[pickIn(m, tx)].Utxo.Value += 1 + m.T.Draw(9) }},
}

// Structural mutations of a transaction.
var ShapeMuts = []TxMut{
	{"sized", func(m *M, tx *core.Tx, _ []gen.Coin) {
		// outputs of value 0 or 1 up to around the limit
		base := *tx
		base.Outputs = nil
		room := int64(m.W.P.MaxTxVSize) - int64(model.TxVSize(base))
		n := room/40 + int64(m.T.Intn(3)) - 1
		if n < 0 || n > 500 {
			n = int64(m.T.Intn(20))
		}
		tx.Outputs = nil
		for i := int64(0); i < n; i++ {
			tx.Outputs = append(tx.Outputs, core.TxOut{Value: 0, PublicKeyHash: gen.K(int(i) % gen.NKeys).Pkh})
		}
		// another minimum height gives another signature and perhaps another size
		tx.MinBlock = m.T.Draw(3)
		gen.Resign(tx)
	}},
	{"flag-coinbase", func(m *M, tx *core.Tx, _ []gen.Coin) {
		tx.IsCoinbase = true
		if m.T.Bool() {
			tx.Inputs = []core.TxIn{}
		}
	}},
	{"coinbase", func(m *M, tx *core.Tx, _ []gen.Coin) {
		r := m.W.P.BlockReward
		*tx = gen.Coinbase(m.T.Draw(9), r-1+m.T.Draw(3), gen.K(0).Pkh)
		switch m.T.Intn(5) {
		case 1:
			tx.Outputs = []core.TxOut{}
		case 2:
			tx.Outputs = append(tx.Outputs, core.TxOut{Value: m.T.Draw(3), PublicKeyHash: gen.K(1).Pkh})
		case 3:
			a := m.T.U64()
			tx.Outputs = []core.TxOut{{Value: a, PublicKeyHash: gen.K(0).Pkh}, {Value: r - a, PublicKeyHash: gen.K(1).Pkh}}
		case 4:
			tx.Outputs[0].Value = m.T.U64()
		}
	}},
	{"min-height", func(m *M, tx *core.Tx, _ []gen.Coin) { tx.MinBlock = m.T.U64(); gen.Resign(tx) }},
	{"no-change", func(m *M, tx *core.Tx, _ []gen.Coin) {}},
}

// MutTx draws a transaction over the coins and mutates it.
func (m *M) MutTx(l *model.Ledger, height uint64, muts []TxMut) (core.Tx, string, bool) {
	t := m.T
	coins := gen.Coins(l)
	if len(coins) == 0 {
		return core.Tx{}, "", false
	}
	tx, _ := gen.SpendTx(t, coins, height)
	if len(tx.Inputs) == 0 {
		return tx, "", false
	}
	why := ""
	for i := 0; i < 2; i++ {
		if i == 1 && t.Draw(4) != 3 {
			break
		}
		k := t.Intn(len(muts))
		if len(tx.Inputs) == 0 {
			break
		}
		muts[k].F(m, &tx, coins)
		why += muts[k].Name + " "
	}
	return tx, why, true
}

func coinbaseOf(m *M, parent *model.Block, txs []core.Tx, o *gen.BlockOpts) *core.Tx {
	if o.Coinbase == nil {
		cb := gen.Coinbase(parent.Height+1, m.W.P.BlockReward+gen.Fees(txs), o.Pay)
		o.Coinbase = &cb
	}
	return o.Coinbase
}

// BlockCoinMuts concern a block's amounts.
var BlockCoinMuts = []BlockMut{
	{"coinbase-off", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		cb := coinbaseOf(m, p, txs, o)
		cb.Outputs[0].Value += []uint64{1, ^uint64(0), 2, m.W.P.BlockReward, -gen.Fees(txs), 1 << 63}[m.T.Intn(6)]
		return txs
	}, nil},
	{"coinbase-any", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		coinbaseOf(m, p, txs, o).Outputs[0].Value = m.T.U64()
		return txs
	}, nil},
	{"coinbase-keeps-a-fee", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		if len(txs) > 0 {
			coinbaseOf(m, p, txs, o).Outputs[0].Value -= gen.Fees(txs[:1])
		}
		return txs
	}, nil},
	{"huge-coins", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		// coins of a coinbase that is stored but in no block, so large that sums wrap
		n := 1 + m.T.Intn(3)
		for i := 0; i < n; i++ {
			v := ^uint64(0) - m.T.Draw(4)
			if m.T.Bool() {
				v = 1<<63 + m.T.Draw(4)
			}
			cb := gen.Coinbase(uint64(i), v, gen.K(i).Pkh)
			if !m.Tx(cb, "huge coinbase ") {
				continue
			}
			keep := m.T.Draw(3) + 1
			if m.T.Bool() {
				keep = v - m.T.Draw(3) - 1
			}
			txs = append(txs, gen.MakeTx(0, []gen.Coin{{U: core.Utxo{TxId: model.Tid(cb), Ind: 0, Value: v}, K: gen.K(i)}},
				[]core.TxOut{{Value: keep, PublicKeyHash: gen.K(0).Pkh}}))
		}
		coinbaseOf(m, p, txs, o)
		return txs
	}, nil},
}

// BlockShapeMuts concern a block's structure.
var BlockShapeMuts = []BlockMut{
	{"coinbase-height", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		coinbaseOf(m, p, txs, o).MinBlock += []uint64{1, ^uint64(0), 2, -(p.Height + 1)}[m.T.Intn(4)]
		return txs
	}, nil},
	{"no-coinbase", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		if len(txs) == 0 {
			return txs
		}
		first := txs[0]
		o.Coinbase = &first
		return txs[1:]
	}, nil},
	{"second-coinbase", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		cb := coinbaseOf(m, p, txs, o)
		r := m.W.P.BlockReward
		extra := gen.Coinbase(p.Height+1, r, gen.K(m.T.Intn(gen.NKeys)).Pkh)
		if m.T.Bool() { // so that the totals still match, if possible
			if cb.Outputs[0].Value >= 2*r {
				cb.Outputs[0].Value -= r
			}
		}
		at := m.T.Intn(len(txs) + 1)
		return append(txs[:at:at], append([]core.Tx{extra}, txs[at:]...)...)
	}, nil},
	{"coinbase-last", nil, func(m *M, p *model.Block, s *gen.Spec) {
		if len(s.Txs) < 2 {
			return
		}
		s.Txs = append(append([]core.Tx{}, s.Txs[1:]...), s.Txs[0])
		m.rebuild(s, 0)
	}},
	{"tx-twice", nil, func(m *M, p *model.Block, s *gen.Spec) {
		i := m.T.Intn(len(s.Txs))
		at := m.T.Intn(len(s.Txs)+1-i) + i
		if at <= i {
			at = i + 1
		}
		s.Txs = append(s.Txs[:at:at], append([]core.Tx{s.Txs[i]}, s.Txs[at:]...)...)
		m.rebuild(s, m.T.Intn(3))
	}},
	{"oversize", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		// transactions past the limit, the last ones around it
		l := gen.CopyLedger(m.W.LedgerAt(p))
		if l.Utxos == nil {
			return txs
		}
		for _, x := range txs {
			gen.Put(l, x)
		}
		for i := 0; i < 40 && gen.Fits(m.W.P, txs); i++ {
			coins := gen.Coins(l)
			if len(coins) == 0 {
				break
			}
			c := coins[i%len(coins)]
			if c.U.Value == 0 {
				continue
			}
			var outs []core.TxOut
			for j := 0; j < m.T.Intn(5); j++ {
				outs = append(outs, core.TxOut{Value: 0, PublicKeyHash: gen.K(j).Pkh})
			}
			outs = append(outs, core.TxOut{Value: c.U.Value - 1, PublicKeyHash: c.K.Pkh})
			tx := gen.MakeTx(m.T.Draw(3), []gen.Coin{c}, outs)
			if model.TxVSize(tx) > m.W.P.MaxTxVSize {
				continue
			}
			txs = append(txs, tx)
			gen.Put(l, tx)
		}
		return txs
	}, nil},
	{"unknown-parent", nil, func(m *M, p *model.Block, s *gen.Spec) {
		h := m.T.Hash32()
		s.Block.PrevBlockId = model.T(h)
		s.Block = gen.Mine(s.Block, m.Salt())
	}},
	{"unknown-root", nil, func(m *M, p *model.Block, s *gen.Spec) {
		switch m.T.Intn(4) {
		case 0:
			s.Block.MerkleRoot = model.T(m.T.Hash32())
		case 1: // a transaction instead of a tree
			s.Block.MerkleRoot = model.Tid(s.Txs[m.T.Intn(len(s.Txs))])
		case 2: // part of the tree
			s.Block.MerkleRoot = model.Mid(s.Merkles[m.T.Intn(len(s.Merkles))])
		case 3: // a block
			s.Block.MerkleRoot = p.Id
		}
		s.Block = gen.Mine(s.Block, m.Salt())
	}},
	{"tree-not-given", nil, func(m *M, p *model.Block, s *gen.Spec) {
		n := m.T.Intn(len(s.Merkles))
		s.Merkles = append(s.Merkles[:n:n], s.Merkles[n+1:]...)
	}},
	{"tx-not-given", nil, func(m *M, p *model.Block, s *gen.Spec) {
		n := m.T.Intn(len(s.Txs))
		s.Txs = append(s.Txs[:n:n], s.Txs[n+1:]...)
	}},
	{"other-blocks-tree", nil, func(m *M, p *model.Block, s *gen.Spec) {
		if len(m.Tips) > 1 {
			o := m.Tips[1+m.T.Intn(len(m.Tips)-1)]
			s.Block.MerkleRoot = o.B.MerkleRoot
			s.Block = gen.Mine(s.Block, m.Salt())
		}
	}},
}

func (m *M) rebuild(s *gen.Spec, shape int) {
	ids := make([]core.HashT, len(s.Txs))
	for i := range s.Txs {
		ids[i] = model.Tid(s.Txs[i])
	}
	s.Merkles = gen.Tree(ids, shape)
	s.Block.MerkleRoot = model.Mid(s.Merkles[len(s.Merkles)-1])
	s.Block = gen.Mine(s.Block, m.Salt())
}

// BlockTimeMuts place the timestamp at every boundary.
var BlockTimeMuts = []BlockMut{
	{"time", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		t := m.T
		now := m.W.Now()
		d := t.Draw(3) - 1 // -1, 0, 1 around a boundary
		med, ok := m.W.MedianTime(p)
		switch t.Weighted(4, 4, 4, 2, 1, 1) {
		case 0:
			if ok {
				o.Time = med + 1 + d
			}
		case 1:
			if p.Height > 0 {
				o.Time = m.W.PeriodFirst(p).B.MinedTime + 1 + d
			}
		case 2:
			o.Time = now + 3600 + d
		case 3:
			if p.Height > 0 {
				o.Time = p.B.MinedTime + d
			}
		case 4:
			o.Time = now + d
		case 5:
			o.Time = t.U64()
		}
		return txs
	}, nil},
}

// BlockWorkMuts concern proof of work and the target.
var BlockWorkMuts = []BlockMut{
	{"no-work", nil, func(m *M, p *model.Block, s *gen.Spec) { s.Block = gen.Unmine(s.Block, m.T.Draw(1000)) }},
	{"target", func(m *M, p *model.Block, txs []core.Tx, o *gen.BlockOpts) []core.Tx {
		t := m.T
		h := p.Height + 1
		prev := m.W.P.OriginalTarget
		if p.Height > 0 {
			prev = p.B.Target
		}
		lo, hi := m.W.TargetBounds(prev)
		var c []*big.Int
		add := func(x *big.Int) {
			for _, d := range []int64{-1, 0, 1} {
				c = append(c, new(big.Int).Add(x, big.NewInt(d)))
			}
		}
		if h%m.W.P.DifficultyPeriod == 0 {
			add(lo)
			add(hi)
		}
		add(model.Big(prev))
		add(model.Big(m.W.P.MaxTarget))
		add(model.Big(m.W.P.OriginalTarget))
		add(new(big.Int).Lsh(model.Big(prev), 1))
		add(new(big.Int).Rsh(model.Big(prev), 1))
		add(new(big.Int).Lsh(model.Big(prev), 2))
		add(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(2)))
		v := c[t.Intn(len(c))]
		floor := new(big.Int).Lsh(big.NewInt(1), 256-12)
		if v.BitLen() > 256 || v.Cmp(floor) < 0 {
			return txs
		}
		x := model.FromBig(v)
		o.Target = &x
		return txs
	}, nil},
	{"cheap-target", nil, func(m *M, p *model.Block, s *gen.Spec) {
		// work that beats an easier target than the one stated
		want := s.Block.Target
		b := s.Block
		for i := 0; i < 200; i++ {
			b.Nonce++
			if !model.Less(model.Bid(b), want) {
				s.Block = b
				return
			}
		}
	}},
	{"zero-target", nil, func(m *M, p *model.Block, s *gen.Spec) {
		s.Block.Target = model.T([32]byte{31: byte(m.T.Draw(2))})
	}},
	{"fields-after-mining", nil, func(m *M, p *model.Block, s *gen.Spec) {
		h := model.D(s.Block.Noise)
		h[m.T.Intn(32)] ^= 1 << m.T.Draw(8)
		s.Block.Noise = model.T(h)
	}},
}

// Run is one case: some valid history, then steps of valid and mutated entities.
func Run(t *pbt.T, f Focus) {
	p := gen.Params(t)
	m := New(t, p)
	m.own = f.Own
	m.Grow(t.Intn(f.Grow+1), f.AvgTx)
	t.Steps(1, 8, 24, func(int) { m.Step(f) })
	// everything still works afterwards
	m.Spec(m.Valid(m.Tips[len(m.Tips)-1], 1), "final ")
	if m.nMut > 0 {
		t.NonTrivial()
	}
}

// Step is one step of the machine.
func (m *M) Step(f Focus) {
	t := m.T
	parent := m.Parent()
	l := m.W.LedgerAt(parent)
	w := []int{3, 0, 0, 0, 1}
	if len(f.Tx) > 0 {
		w[1] = 6
	}
	if len(f.Block) > 0 {
		w[2] = 6
	}
	if f.Merkle {
		w[3] = 3
	}
	switch t.Weighted(w...) {
	case 0:
		m.Spec(m.Valid(parent, f.AvgTx), "")
	case 1:
		tx, why, ok := m.MutTx(l, parent.Height+1, f.Tx)
		if !ok {
			m.Spec(m.Valid(parent, 0), "")
			return
		}
		m.nMut++
		t.Label("mut:" + strings.Fields(why)[0])
		if !m.Tx(tx, why) || l.Bad != "" {
			return
		}
		// put the accepted transaction into a block
		if t.Bool() && gen.Fits(m.W.P, []core.Tx{tx}) && !tx.IsCoinbase {
			tg := gen.NextBlockTarget(t, m.W, parent)
			m.Spec(gen.Block(m.W, parent, []core.Tx{tx}, gen.BlockOpts{
				Pay: gen.K(0).Pkh, Time: gen.BlockTime(t, m.W, parent), Target: &tg, Salt: m.Salt()}), "with it: ")
		}
	case 2:
		var txs []core.Tx
		if l.Bad == "" {
			txs = gen.Fill(t, m.W, l, parent.Height+1, f.AvgTx, 6, nil)
		}
		tg := gen.NextBlockTarget(t, m.W, parent)
		o := gen.BlockOpts{Pay: gen.K(t.Intn(gen.NKeys)).Pkh, Time: gen.BlockTime(t, m.W, parent), Target: &tg,
			Shape: gen.Shape(t), Salt: m.Salt()}
		mut := f.Block[t.Intn(len(f.Block))]
		if mut.F != nil {
			txs = mut.F(m, parent, txs, &o)
		}
		s := gen.Block(m.W, parent, txs, o)
		if mut.Post != nil {
			mut.Post(m, parent, &s)
		}
		m.nMut++
		t.Label("mut:" + mut.Name)
		m.Spec(s, mut.Name+" ")
	case 3:
		m.merkleStep()
	case 4: // the clock moves
		d := t.Draw(600) + 1
		time.Sleep(time.Duration(d) * time.Second)
		t.Note("clock +%d", d)
	}
}

// merkleStep combines known and unknown nodes at random.
func (m *M) merkleStep() {
	t := m.T
	var known []core.HashT
	known = append(known, m.W.TxOrder...)
	for _, b := range m.Tips[1:] {
		known = append(known, b.B.MerkleRoot)
	}
	for id := range m.W.Merkles {
		known = append(known, id)
	}
	model.SortHashes(known)
	if len(known) == 0 {
		return
	}
	pick := func() core.HashT {
		if t.Draw(12) == 11 {
			return model.T(t.Hash32())
		}
		return known[t.Intn(len(known))]
	}
	n := core.MerkleNode{LChild: pick(), RChild: pick()}
	if t.Draw(4) == 3 {
		n.RChild = n.LChild
	}
	m.nMut++
	m.Merkle(n, "merkle ")
}
