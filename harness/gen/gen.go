//go:build go1.25

// Package gen generates keys, transactions, blocks and networks' parameters.
package gen

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"sync"

	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Key is a deterministic key pair.
type Key struct {
	N    int
	Priv *ecdsa.PrivateKey
	Pub  []byte
	Pkh  core.HashT
}

var (
	keyMu sync.Mutex
	keys  = map[[2]int]*Key{}
)

// K gives the n-th P-256 key.
func K(n int) *Key { return CurveKey(n, 0) }

// CurveKey gives the n-th key of a curve: 0 is P-256, 1 P-384, 2 P-224.
func CurveKey(n, curve int) *Key {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := keys[[2]int{n, curve}]; ok {
		return k
	}
	c := []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P224()}[curve]
	size := (c.Params().BitSize + 7) / 8
	for i := 0; ; i++ {
		raw := make([]byte, size)
		for j := 0; j < size; j += 32 {
			h := model.BytesHash([]byte(fmt.Sprintf("key %d %d %d %d", n, curve, i, j)))
			copy(raw[j:], h[:])
		}
		priv, err := ecdsa.ParseRawPrivateKey(c, raw)
		if err != nil {
			continue
		}
		pub, err := x509.MarshalPKIXPublicKey(&priv.PublicKey)
		if err != nil {
			panic(err)
		}
		k := &Key{N: n, Priv: priv, Pub: pub, Pkh: model.T(model.BytesHash(pub))}
		keys[[2]int{n, curve}] = k
		return k
	}
}

var (
	sigMu  sync.Mutex
	sigMap = map[string][]byte{}
)

// Sign signs deterministically (RFC 6979).
func (k *Key) Sign(digest [32]byte) []byte {
	id := string(k.Pub) + string(digest[:])
	sigMu.Lock()
	s, ok := sigMap[id]
	sigMu.Unlock()
	if ok {
		return append([]byte{}, s...)
	}
	s, err := k.Priv.Sign(nil, digest[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	sigMu.Lock()
	if len(sigMap) < 1<<16 {
		sigMap[id] = s
	}
	sigMu.Unlock()
	return append([]byte{}, s...)
}

// Pkh of key n, Pkhs of keys 0..n-1.
func Pkhs(n int) []core.HashT {
	out := make([]core.HashT, n)
	for i := range out {
		out[i] = K(i).Pkh
	}
	return out
}

// NKeys is how many keys the generators use.
const NKeys = 5

func owner(pkh core.HashT) *Key {
	for i := 0; i < NKeys; i++ {
		if K(i).Pkh == pkh {
			return K(i)
		}
	}
	return nil
}

// Owner finds the generator's key with this hash, nil if there is none.
func Owner(pkh core.HashT) *Key { return owner(pkh) }

var easy = core.NewHashTFromStringAssert("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")

// Params draws small easy network parameters.
func Params(t *pbt.T) core.Params {
	p := core.Params{
		// Now and then rewards whose fees and rates need many digits.
		BlockReward:      []uint64{1000, 7, 131072, 1, 1 << 33, 1 << 52}[t.Weighted(8, 3, 3, 2, 2, 2)],
		DifficultyPeriod: uint64(4 + t.Intn(5)),
		BlockTargetTime:  []uint64{10, 1, 60, 720}[t.Weighted(4, 2, 2, 2)],
		MaxBlockVSize:    1 << 20,
		MaxTxVSize:       1 << 14,
		MaxTarget:        easy,
		OriginalTarget:   easy,
	}
	switch t.Weighted(3, 3, 2, 2) {
	case 1:
		p.OriginalTarget = model.FromBig(rsh(p.OriginalTarget, 2))
	case 2: // odd values, not powers of two
		p.OriginalTarget = model.FromBig(sub(rsh(p.OriginalTarget, 1), t.Draw(1<<20)))
	case 3:
		p.MaxTarget = model.FromBig(sub(rsh(p.MaxTarget, 1), t.Draw(1<<20)))
		p.OriginalTarget = p.MaxTarget
	}
	switch t.Weighted(3, 4, 3) {
	case 1: // tight block size, straddled by signature lengths of 70 to 72 bytes
		p.MaxBlockVSize = model.CoinbaseSize + uint64(1+t.Intn(5))*282 + uint64(t.Intn(10))*40 + t.Draw(3)
	case 2:
		p.MaxBlockVSize = 4000 + t.Draw(4000)
	}
	switch t.Weighted(2, 2) {
	case 1:
		p.MaxTxVSize = 282 + 40*uint64(2+t.Intn(8)) + t.Draw(2)
	}
	if p.MaxTxVSize > p.MaxBlockVSize && t.Bool() {
		p.MaxTxVSize = p.MaxBlockVSize
	}
	return p
}

// ParamsLine describes parameters.
func ParamsLine(p core.Params) string {
	return fmt.Sprintf("params reward=%d period=%d blocktime=%d maxblock=%d maxtx=%d target=%s max=%s",
		p.BlockReward, p.DifficultyPeriod, p.BlockTargetTime, p.MaxBlockVSize, p.MaxTxVSize,
		p.OriginalTarget.String()[:20], p.MaxTarget.String()[:20])
}

// Resign signs all inputs of a transaction by the owners of the keys they carry.
func Resign(tx *core.Tx) {
	d := model.SigDigest(tx.MinBlock, tx.Outputs)
	for i := range tx.Inputs {
		for n := 0; n < NKeys; n++ {
			if string(K(n).Pub) == string(tx.Inputs[i].PublicKey) {
				tx.Inputs[i].Signature = K(n).Sign(d)
			}
		}
	}
}

// Coin is a spendable output.
type Coin struct {
	U core.Utxo
	K *Key
}

// MakeTx builds and signs a transaction.
func MakeTx(minBlock uint64, in []Coin, out []core.TxOut) core.Tx {
	tx := core.Tx{MinBlock: minBlock, Inputs: []core.TxIn{}, Outputs: out}
	if tx.Outputs == nil {
		tx.Outputs = []core.TxOut{}
	}
	d := model.SigDigest(minBlock, out)
	for _, c := range in {
		tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: c.U, PublicKey: append([]byte{}, c.K.Pub...), Signature: c.K.Sign(d)})
	}
	return tx
}

// Coins lists the outputs of a ledger the generator's keys own, in a fixed order.
func Coins(l *model.Ledger) []Coin {
	var out []Coin
	for u, o := range l.Utxos {
		if k := owner(o); k != nil {
			out = append(out, Coin{u, k})
		}
	}
	SortCoins(out)
	return out
}

func SortCoins(out []Coin) {
	sortSlice(out, func(a, b Coin) bool {
		if a.U.TxId != b.U.TxId {
			return model.Less(a.U.TxId, b.U.TxId)
		}
		if a.U.Ind != b.U.Ind {
			return a.U.Ind < b.U.Ind
		}
		return a.U.Value < b.U.Value
	})
}

// SpendTx draws a valid transaction spending some of the coins (non-empty); the
// used coins' indexes are returned.
func SpendTx(t *pbt.T, coins []Coin, height uint64) (core.Tx, []int) {
	n := 1 + t.Weighted(6, 2, 1)
	if n > len(coins) {
		n = len(coins)
	}
	var used []int
	var in []Coin
	total := uint64(0)
	for len(used) < n {
		i := t.Intn(len(coins))
		for has(used, i) {
			i = (i + 1) % len(coins)
		}
		if total+coins[i].U.Value < total {
			break
		}
		used = append(used, i)
		in = append(in, coins[i])
		total += coins[i].U.Value
	}
	if total == 0 { // worthless coins cannot pay a fee
		return core.Tx{}, nil
	}
	fee := uint64(1)
	switch t.Weighted(4, 3, 1) {
	case 1:
		fee = 1 + t.Draw(min64(total, 60))
	case 2:
		fee = 1 + t.Draw(total)
	}
	left := total - min64(fee, total)
	var out []core.TxOut
	nOut := t.Weighted(1, 6, 6, 2, 1)
	if t.Draw(8) == 1 {
		nOut = 1 + t.Intn(12)
	}
	for i := 0; i < nOut; i++ {
		v := left
		if i < nOut-1 {
			v = t.Draw(left + 1)
			if left == ^uint64(0) {
				v = t.Draw(left)
			}
		}
		left -= v
		out = append(out, core.TxOut{Value: v, PublicKeyHash: K(t.Intn(NKeys)).Pkh})
	}
	min := uint64(0)
	if t.Draw(3) == 2 {
		min = t.Draw(height + 1)
	}
	return MakeTx(min, in, out), used
}

// Coinbase builds a coinbase.
func Coinbase(height, value uint64, pkh core.HashT) core.Tx {
	return core.Tx{IsCoinbase: true, MinBlock: height, Inputs: []core.TxIn{},
		Outputs: []core.TxOut{{Value: value, PublicKeyHash: pkh}}}
}

// Mine finds a nonce; the block's noise and starting nonce come from salt.
func Mine(b core.Block, salt uint64) core.Block {
	var n [32]byte
	binary.BigEndian.PutUint64(n[:], salt)
	b.Noise = model.T(n)
	b.Nonce = salt << 16
	for i := 0; i < 1<<22; i++ {
		if model.Less(model.Bid(b), b.Target) {
			return b
		}
		b.Nonce++
	}
	panic("mining failed: generated target too hard")
}

// Unmine finds a nonce that does not beat the target.
func Unmine(b core.Block, salt uint64) core.Block {
	b.Nonce = salt
	for i := 0; i < 1<<20; i++ {
		if !model.Less(model.Bid(b), b.Target) {
			return b
		}
		b.Nonce++
	}
	return b
}

// Fees of transactions, wrapping as 64-bit arithmetic.
func Fees(txs []core.Tx) uint64 {
	f := uint64(0)
	for _, t := range txs {
		for _, i := range t.Inputs {
			f += i.Utxo.Value
		}
		for _, o := range t.Outputs {
			f -= o.Value
		}
	}
	return f
}

// Shape draws a shape for Tree.
func Shape(t *pbt.T) int {
	switch t.Weighted(12, 2, 2, 1, 1) {
	case 1:
		return 1
	case 2:
		return 2
	case 3:
		return 3 + t.Intn(22)
	case 4:
		return 100 + t.Intn(1<<20)
	}
	return 0
}

// Tree builds the merkle nodes over txs: shape 0 the standard tree, 1 an extra
// doubled root, 2 leaning right, 3-99 a root doubled more often, above any tree.
func Tree(ids []core.HashT, shape int) []core.MerkleNode {
	switch {
	case shape >= 100:
		if len(ids) < 2 {
			return model.Merkle(ids)
		}
		type node struct {
			l, r *node
			id   core.HashT
		}
		r := rand.New(rand.NewPCG(uint64(shape), 1))
		cur := make([]*node, len(ids))
		for i := range cur {
			cur[i] = &node{}
		}
		for len(cur) > 1 { // join neighbours anywhere, double at times
			i := r.IntN(len(cur) - 1)
			cur[i] = &node{l: cur[i], r: cur[i+1]}
			cur = append(cur[:i+1], cur[i+2:]...)
			if r.IntN(6) == 0 {
				cur[i] = &node{l: cur[i], r: cur[i]}
			}
		}
		all, k := []*node{cur[0]}, 0
		for i := 0; i < len(all); i++ { // ids in the order in which the tree is read
			if n := all[i]; n.l == nil {
				n.id = ids[k]
				k++
			} else if all = append(all, n.l); n.r != n.l {
				all = append(all, n.r)
			}
		}
		var ns []core.MerkleNode
		for i := len(all) - 1; i >= 0; i-- {
			if n := all[i]; n.l != nil {
				m := core.MerkleNode{LChild: n.l.id, RChild: n.r.id}
				n.id = model.Mid(m)
				ns = append(ns, m)
			}
		}
		return ns
	case shape == 1 || shape >= 3:
		ns := model.Merkle(ids)
		for range max(1, shape-1) {
			r := model.Mid(ns[len(ns)-1])
			ns = append(ns, core.MerkleNode{LChild: r, RChild: r})
		}
		return ns
	case shape == 2:
		if len(ids) < 3 {
			return model.Merkle(ids)
		}
		var ns []core.MerkleNode
		cur := ids[len(ids)-1]
		for i := len(ids) - 2; i >= 0; i-- {
			n := core.MerkleNode{LChild: ids[i], RChild: cur}
			ns = append(ns, n)
			cur = model.Mid(n)
		}
		return ns
	}
	return model.Merkle(ids)
}

// Spec is a block with all its parts.
type Spec struct {
	Txs     []core.Tx // coinbase first
	Merkles []core.MerkleNode
	Block   core.Block
}

// Id of the block.
func (s Spec) Id() core.HashT { return model.Bid(s.Block) }

// BlockOpts adjust a built block.
type BlockOpts struct {
	Pay      core.HashT
	Time     uint64
	Target   *core.HashT
	Shape    int
	Salt     uint64
	Coinbase *core.Tx
	NoMine   bool
}

// Block assembles and mines a block with the given non-coinbase transactions.
func Block(w *model.World, parent *model.Block, txs []core.Tx, o BlockOpts) Spec {
	cb := Coinbase(parent.Height+1, w.P.BlockReward+Fees(txs), o.Pay)
	if o.Coinbase != nil {
		cb = *o.Coinbase
	}
	s := Spec{Txs: append([]core.Tx{cb}, txs...)}
	ids := make([]core.HashT, len(s.Txs))
	for i := range s.Txs {
		ids[i] = model.Tid(s.Txs[i])
	}
	s.Merkles = Tree(ids, o.Shape)
	s.Block = core.Block{
		PrevBlockId: parent.Id, MerkleRoot: model.Mid(s.Merkles[len(s.Merkles)-1]), MinedTime: o.Time,
	}
	if o.Target != nil {
		s.Block.Target = *o.Target
	} else {
		s.Block.Target = w.NextTarget(parent)
	}
	if !o.NoMine {
		s.Block = Mine(s.Block, o.Salt)
	}
	return s
}

// BlockTime draws an allowed timestamp for a child of parent.
func BlockTime(t *pbt.T, w *model.World, parent *model.Block) uint64 {
	now := w.Now()
	min := w.MinTime(parent)
	max := now + 3600
	if parent.Height == 0 && min == 0 {
		min = now - 100000
	}
	if min > max {
		return min // not allowed yet; the model will say so
	}
	last := parent.B.MinedTime
	if parent.Height == 0 {
		last = min + 50000
	}
	v := min
	switch t.Weighted(5, 3, 2, 1, 1) {
	case 0: // in step with the target time
		v = last + w.P.BlockTargetTime
	case 1:
		v = last + t.Draw(3*w.P.BlockTargetTime+1)
	case 2:
		v = min
	case 3:
		v = min + t.Draw(max-min+1)
	case 4: // slightly before the parent
		v = last - t.Draw(w.P.BlockTargetTime+1)
	}
	if v < min {
		v = min
	}
	if v > max-200 && t.Intn(8) != 0 {
		v = min
	}
	if v > max {
		v = max
	}
	return v
}

// NextBlockTarget draws a target allowed for a child of parent and easy to mine.
func NextBlockTarget(t *pbt.T, w *model.World, parent *model.Block) core.HashT {
	h := parent.Height + 1
	if parent.Height == 0 || h%w.P.DifficultyPeriod != 0 {
		return w.NextTarget(parent)
	}
	lo, hi := w.TargetBounds(parent.B.Target)
	floor := rsh(easy, 7) // at most about 500 hashes
	if lo.Cmp(floor) < 0 {
		lo = floor
	}
	if lo.Cmp(hi) > 0 {
		lo = hi
	}
	switch t.Weighted(6, 1, 1, 1) {
	case 1:
		return model.FromBig(lo)
	case 2:
		return model.FromBig(hi)
	case 3:
		return model.FromBig(between(lo, hi, t.Draw(1000)))
	}
	// the honest target, if easy enough
	n := model.Big(w.NextTarget(parent))
	if n.Cmp(floor) < 0 {
		return model.FromBig(hi)
	}
	return model.FromBig(n)
}
