//go:build go1.25

package model

import (
	"crypto/ecdsa"
	"crypto/x509"
	"math/big"
	"sort"

	"github.com/levilutz/basiccoin/pkg/core"
)

// Block is an accepted block of the tree.
type Block struct {
	Id     core.HashT
	B      core.Block
	Height uint64
	Work   *big.Int
	Parent *Block
	TxIds  []core.HashT
	Seq    int // order of acceptance
	ledger *Ledger
}

type merkle struct {
	M    core.MerkleNode
	Size uint64
	Txs  []core.HashT // in breadth-first order
}

// World is what a node has stored.
type World struct {
	P       core.Params
	Txs     map[core.HashT]core.Tx
	Merkles map[core.HashT]*merkle
	Blocks  map[core.HashT]*Block
	Root    *Block
	Now     func() uint64
	TxOrder []core.HashT
	// DupInputsOk is set when the world should not care about a rule.
}

func NewWorld(p core.Params, now func() uint64) *World {
	w := &World{
		P: p, Txs: map[core.HashT]core.Tx{}, Merkles: map[core.HashT]*merkle{},
		Blocks: map[core.HashT]*Block{}, Now: now,
	}
	w.Root = &Block{Work: new(big.Int)}
	w.Root.ledger = &Ledger{Utxos: map[core.Utxo]core.HashT{}, Included: map[core.HashT]*Block{}}
	w.Blocks[core.HashT{}] = w.Root
	return w
}

// Clone copies the world (blocks are shared, they are immutable).
func (w *World) Clone() *World {
	c := &World{P: w.P, Now: w.Now, Root: w.Root, Txs: map[core.HashT]core.Tx{},
		Merkles: map[core.HashT]*merkle{}, Blocks: map[core.HashT]*Block{}}
	for k, v := range w.Txs {
		c.Txs[k] = v
	}
	for k, v := range w.Merkles {
		c.Merkles[k] = v
	}
	for k, v := range w.Blocks {
		c.Blocks[k] = v
	}
	c.TxOrder = append(c.TxOrder, w.TxOrder...)
	return c
}

var max64 = new(big.Int).SetUint64(^uint64(0))

func sumIns(ins []core.TxIn) *big.Int {
	s := new(big.Int)
	for _, i := range ins {
		s.Add(s, new(big.Int).SetUint64(i.Utxo.Value))
	}
	return s
}

func sumOuts(outs []core.TxOut) *big.Int {
	s := new(big.Int)
	for _, o := range outs {
		s.Add(s, new(big.Int).SetUint64(o.Value))
	}
	return s
}

func SigOk(pub []byte, digest H, sig []byte) bool {
	k, err := x509.ParsePKIXPublicKey(pub)
	if err != nil {
		return false
	}
	ek, ok := k.(*ecdsa.PublicKey)
	return ok && ecdsa.VerifyASN1(ek, digest[:], sig)
}

// Reasons is the list of rules an entity breaks. Maybe is set when an amount does
// not fit 64 bits on a side where refusing it is as right as accepting it.
type Reasons struct {
	R     []string
	Maybe bool
}

func (r *Reasons) add(s string) { r.R = append(r.R, s) }
func (r Reasons) Ok() bool      { return len(r.R) == 0 }
func (r Reasons) String() string {
	s := ""
	for i, x := range r.R {
		if i > 0 {
			s += ","
		}
		s += x
	}
	if s == "" {
		return "valid"
	}
	return s
}

func (w *World) CheckTx(t core.Tx) (r Reasons) {
	digest := SigDigest(t.MinBlock, t.Outputs)
	for _, in := range t.Inputs {
		if !SigOk(in.PublicKey, digest, in.Signature) {
			r.add("signature")
			break
		}
	}
	if TxVSize(t) > w.P.MaxTxVSize {
		r.add("txsize")
	}
	in, out := sumIns(t.Inputs), sumOuts(t.Outputs)
	if t.IsCoinbase {
		if len(t.Inputs) > 0 {
			r.add("coinbase-inputs")
		}
		if len(t.Outputs) != 1 {
			r.add("coinbase-outputs")
		}
		if out.Cmp(new(big.Int).SetUint64(w.P.BlockReward)) < 0 {
			r.add("coinbase-reward")
		}
		if out.Cmp(max64) > 0 {
			r.Maybe = true
		}
	} else {
		if in.Cmp(out) <= 0 {
			r.add("surplus")
		}
		if in.Cmp(max64) > 0 {
			r.Maybe = true
		}
	}
	seen := map[[2]any]bool{}
	for _, i := range t.Inputs {
		if k := [2]any{i.Utxo.TxId, i.Utxo.Ind}; seen[k] {
			r.add("duplicate-input")
		} else {
			seen[k] = true
		}
		src, ok := w.Txs[i.Utxo.TxId]
		if !ok || i.Utxo.Ind >= uint64(len(src.Outputs)) {
			r.add("unknown-output")
			continue
		}
		o := src.Outputs[i.Utxo.Ind]
		if T(dsha(i.PublicKey)) != o.PublicKeyHash {
			r.add("owner")
		}
		if o.Value != i.Utxo.Value {
			r.add("amount")
		}
	}
	return
}

func (w *World) PutTx(t core.Tx) {
	id := Tid(t)
	if _, ok := w.Txs[id]; !ok {
		w.TxOrder = append(w.TxOrder, id)
	}
	w.Txs[id] = t
}

func (w *World) entity(id core.HashT) (size uint64, txs []core.HashT, ok bool) {
	if m, ok := w.Merkles[id]; ok {
		return m.Size, m.Txs, true
	}
	if t, ok := w.Txs[id]; ok {
		return TxVSize(t), []core.HashT{id}, true
	}
	return 0, nil, false
}

func (w *World) CheckMerkle(m core.MerkleNode) (r Reasons) {
	ls, lt, ok := w.entity(m.LChild)
	if !ok {
		r.add("unknown-child")
		return
	}
	size := ls
	if m.LChild != m.RChild {
		rs, rt, ok := w.entity(m.RChild)
		if !ok {
			r.add("unknown-child")
			return
		}
		size += rs
		in := map[core.HashT]bool{}
		for _, x := range lt {
			in[x] = true
		}
		for _, x := range rt {
			if in[x] {
				r.add("tx-twice")
				break
			}
		}
	}
	if size > w.P.MaxBlockVSize {
		r.add("blocksize")
	}
	return
}

// Breadth-first list of the transactions under a node.
func (w *World) bfs(root core.HashT) []core.HashT {
	out := []core.HashT{}
	q := []core.HashT{root}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if _, ok := w.Txs[x]; ok {
			out = append(out, x)
			continue
		}
		m := w.Merkles[x]
		q = append(q, m.M.LChild)
		if m.M.LChild != m.M.RChild {
			q = append(q, m.M.RChild)
		}
	}
	return out
}

func (w *World) PutMerkle(m core.MerkleNode) {
	id := Mid(m)
	if _, ok := w.Merkles[id]; ok {
		return
	}
	size, _, _ := w.entity(m.LChild)
	if m.LChild != m.RChild {
		s, _, _ := w.entity(m.RChild)
		size += s
	}
	n := &merkle{M: m, Size: size}
	w.Merkles[id] = n
	n.Txs = w.bfs(id)
}

func (w *World) MerkleTxs(id core.HashT) []core.HashT { return w.Merkles[id].Txs }
func (w *World) MerkleSize(id core.HashT) uint64      { return w.Merkles[id].Size }

func Less(a, b core.HashT) bool {
	x, y := D(a), D(b)
	for i := range x {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return false
}

func Big(h core.HashT) *big.Int { d := D(h); return new(big.Int).SetBytes(d[:]) }

func FromBig(i *big.Int) core.HashT {
	var d H
	i.FillBytes(d[:])
	return T(d)
}

var top = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

// WorkOf is the expected number of hashes to beat a target, as the network counts it.
func WorkOf(target core.HashT) *big.Int { return new(big.Int).Div(top, Big(target)) }

// Bounds of the target of a block at a period boundary.
func (w *World) TargetBounds(prev core.HashT) (lo, hi *big.Int) {
	lo = new(big.Int).Rsh(Big(prev), 2)
	hi = new(big.Int).Lsh(Big(prev), 2)
	if m := Big(w.P.MaxTarget); hi.Cmp(m) > 0 {
		hi = m
	}
	return
}

// NextTarget is the target the network aims at for a child of b.
func (w *World) NextTarget(b *Block) core.HashT {
	if b.Height == 0 {
		return w.P.OriginalTarget
	}
	if (b.Height+1)%w.P.DifficultyPeriod != 0 {
		return b.B.Target
	}
	first := w.PeriodFirst(b)
	hops := b.Height - first.Height
	actual := new(big.Int).Sub(new(big.Int).SetUint64(b.B.MinedTime), new(big.Int).SetUint64(first.B.MinedTime))
	desired := new(big.Int).Mul(new(big.Int).SetUint64(w.P.BlockTargetTime), new(big.Int).SetUint64(hops))
	v := new(big.Int).Mul(Big(b.B.Target), actual)
	v.Div(v, desired)
	lo, hi := w.TargetBounds(b.B.Target)
	if v.Cmp(lo) < 0 {
		v = lo
	}
	if v.Cmp(hi) > 0 {
		v = hi
	}
	return FromBig(v)
}

// PeriodFirst is the first block of the difficulty period b lies in.
func (w *World) PeriodFirst(b *Block) *Block {
	p := w.P.DifficultyPeriod
	for b.Height > 1 && b.Height%p != 0 {
		b = b.Parent
	}
	return b
}

// MedianTime of the up to five blocks ending with b; false for the root.
func (w *World) MedianTime(b *Block) (uint64, bool) {
	var ts []uint64
	for x := b; x.Height > 0 && len(ts) < 5; x = x.Parent {
		ts = append(ts, x.B.MinedTime)
	}
	if len(ts) == 0 {
		return 0, false
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	n := len(ts)
	if n%2 == 1 {
		return ts[n/2], true
	}
	a, b2 := ts[n/2-1], ts[n/2]
	return a + (b2-a)/2, true
}

// MinTime is the least timestamp a child of b may have.
func (w *World) MinTime(b *Block) uint64 {
	min := uint64(0)
	if m, ok := w.MedianTime(b); ok {
		min = m + 1
	}
	h := b.Height + 1
	if b.Height > 0 && (h+1)%w.P.DifficultyPeriod == 0 {
		if f := w.PeriodFirst(b); f.B.MinedTime+1 > min {
			min = f.B.MinedTime + 1
		}
	}
	return min
}

func (w *World) CheckBlock(b core.Block) (r Reasons) {
	if !Less(Bid(b), b.Target) {
		r.add("work")
	}
	m, ok := w.Merkles[b.MerkleRoot]
	if !ok {
		r.add("unknown-root")
	}
	par, ok2 := w.Blocks[b.PrevBlockId]
	if !ok2 {
		r.add("unknown-parent")
	}
	if !ok || !ok2 {
		return
	}
	h := par.Height + 1
	in := new(big.Int).SetUint64(w.P.BlockReward)
	out := new(big.Int)
	for i, id := range m.Txs {
		t := w.Txs[id]
		if i == 0 {
			if !t.IsCoinbase {
				r.add("first-not-coinbase")
			}
			if t.MinBlock != h {
				r.add("coinbase-height")
			}
		} else if t.IsCoinbase {
			r.add("second-coinbase")
		}
		in.Add(in, sumIns(t.Inputs))
		out.Add(out, sumOuts(t.Outputs))
	}
	if in.Cmp(out) != 0 {
		r.add("totals")
	}
	if in.Cmp(max64) > 0 || out.Cmp(max64) > 0 {
		r.Maybe = true
	}
	if m.Size > w.P.MaxBlockVSize {
		r.add("blocksize")
	}
	if med, ok := w.MedianTime(par); ok && b.MinedTime <= med {
		r.add("median")
	}
	if par.Height > 0 && (h+1)%w.P.DifficultyPeriod == 0 && b.MinedTime <= w.PeriodFirst(par).B.MinedTime {
		r.add("period-last")
	}
	if now := w.Now(); b.MinedTime > now+3600 {
		r.add("future")
	}
	tb := Big(b.Target)
	switch {
	case par.Height == 0:
		if b.Target != w.P.OriginalTarget {
			r.add("target")
		}
	case h%w.P.DifficultyPeriod != 0:
		if b.Target != par.B.Target {
			r.add("target")
		}
	default:
		lo, hi := w.TargetBounds(par.B.Target)
		if tb.Cmp(lo) < 0 || tb.Cmp(hi) > 0 {
			r.add("target")
		}
	}
	return
}

func (w *World) PutBlock(b core.Block) *Block {
	id := Bid(b)
	if x, ok := w.Blocks[id]; ok {
		return x
	}
	par := w.Blocks[b.PrevBlockId]
	x := &Block{
		Id: id, B: b, Height: par.Height + 1, Parent: par, Work: new(big.Int).Add(par.Work, WorkOf(b.Target)),
		TxIds: w.Merkles[b.MerkleRoot].Txs, Seq: len(w.Blocks),
	}
	w.Blocks[id] = x
	return x
}

// Ledger is the state after a chain: who owns which unspent outputs, where txs are.
type Ledger struct {
	Utxos    map[core.Utxo]core.HashT // owner
	Included map[core.HashT]*Block
	Bad      string // reason, if the chain is not valid
}

// LedgerAt replays the chain ending in b (memoised per block, from its parent's).
func (w *World) LedgerAt(b *Block) *Ledger {
	if b.ledger != nil {
		return b.ledger
	}
	p := w.LedgerAt(b.Parent)
	l := &Ledger{}
	b.ledger = l
	if p.Bad != "" {
		l.Bad = p.Bad
		return l
	}
	l.Utxos = make(map[core.Utxo]core.HashT, len(p.Utxos)+8)
	for k, v := range p.Utxos {
		l.Utxos[k] = v
	}
	l.Included = make(map[core.HashT]*Block, len(p.Included)+4)
	for k, v := range p.Included {
		l.Included[k] = v
	}
	for _, id := range b.TxIds {
		if r := w.Apply(l, b.Height, id); r != "" {
			l.Bad = r
			return l
		}
		l.Included[id] = b
	}
	return l
}

// Apply spends and creates the outputs of a transaction, or says why it cannot.
func (w *World) Apply(l *Ledger, height uint64, id core.HashT) string {
	t := w.Txs[id]
	if _, ok := l.Included[id]; ok {
		return "included-again"
	}
	if t.MinBlock > height {
		return "below-min-height"
	}
	for _, in := range t.Inputs {
		if _, ok := l.Utxos[in.Utxo]; !ok {
			return "not-unspent"
		}
		delete(l.Utxos, in.Utxo)
	}
	for i, o := range t.Outputs {
		l.Utxos[core.Utxo{TxId: id, Ind: uint64(i), Value: o.Value}] = o.PublicKeyHash
	}
	return ""
}

// Supply is the sum of all unspent outputs.
func (l *Ledger) Supply() *big.Int {
	s := new(big.Int)
	for u := range l.Utxos {
		s.Add(s, new(big.Int).SetUint64(u.Value))
	}
	return s
}

// Balances per owner.
func (l *Ledger) Balances() map[core.HashT]uint64 {
	out := map[core.HashT]uint64{}
	for u, o := range l.Utxos {
		out[o] += u.Value
	}
	return out
}

// Chain from the first block to b.
func Chain(b *Block) []*Block {
	out := make([]*Block, b.Height)
	for ; b.Height > 0; b = b.Parent {
		out[b.Height-1] = b
	}
	return out
}

// LCA by naive parent pointers.
func LCA(a, b *Block) *Block {
	seen := map[*Block]bool{}
	for x := a; x != nil; x = x.Parent {
		seen[x] = true
	}
	for !seen[b] {
		b = b.Parent
	}
	return b
}

// CheckTxWith checks a transaction that may also spend outputs of others.
func (w *World) CheckTxWith(t core.Tx, others []core.Tx) Reasons {
	var added []core.HashT
	for _, o := range others {
		id := Tid(o)
		if _, ok := w.Txs[id]; !ok {
			w.Txs[id] = o
			added = append(added, id)
		}
	}
	r := w.CheckTx(t)
	for _, id := range added {
		delete(w.Txs, id)
	}
	return r
}
