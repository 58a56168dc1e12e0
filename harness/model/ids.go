//go:build go1.25

// Package model is an independent statement of the network's rules: ids, sizes,
// validity of transactions, merkle nodes and blocks, and ledger replay. It uses
// the repository's types only as containers of data.
package model

import (
	"crypto/sha256"
	"encoding/binary"

	"github.com/levilutz/basiccoin/pkg/core"
)

type H = [32]byte

func dsha(b []byte) H {
	a := sha256.Sum256(b)
	return sha256.Sum256(a[:])
}

func u64h(v uint64) H {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return dsha(b[:])
}

func boolh(v bool) H {
	if v {
		return dsha([]byte{0})
	}
	return dsha([]byte{1})
}

// The network's combination of hashes: 32 zero bytes for each, then the hashes.
func comb(hs ...H) H {
	b := make([]byte, 32*len(hs), 64*len(hs))
	for _, h := range hs {
		b = append(b, h[:]...)
	}
	return dsha(b)
}

func T(h H) core.HashT      { return core.NewHashTFromBytes(h[:]) }
func D(h core.HashT) H      { return h.Data() }
func BytesHash(b []byte) H  { return dsha(b) }
func Uint64Hash(v uint64) H { return u64h(v) }
func BoolHash(v bool) H     { return boolh(v) }
func CombHash(hs ...H) H    { return comb(hs...) }

func UtxoId(u core.Utxo) H { return comb(D(u.TxId), u64h(u.Ind), u64h(u.Value)) }

func TxInId(i core.TxIn) H { return comb(UtxoId(i.Utxo), dsha(i.PublicKey), dsha(i.Signature)) }

func TxOutId(o core.TxOut) H { return comb(u64h(o.Value), D(o.PublicKeyHash)) }

func outsId(outs []core.TxOut) H {
	hs := make([]H, len(outs))
	for i := range outs {
		hs[i] = TxOutId(outs[i])
	}
	return comb(hs...)
}

func insId(ins []core.TxIn) H {
	hs := make([]H, len(ins))
	for i := range ins {
		hs[i] = TxInId(ins[i])
	}
	return comb(hs...)
}

func TxId(t core.Tx) H {
	return comb(boolh(t.IsCoinbase), u64h(t.MinBlock), insId(t.Inputs), outsId(t.Outputs))
}

// What a signature covers.
func SigDigest(minBlock uint64, outs []core.TxOut) H { return comb(u64h(minBlock), outsId(outs)) }

func MerkleId(m core.MerkleNode) H { return comb(D(m.LChild), D(m.RChild)) }

func BlockId(b core.Block) H {
	return comb(D(b.PrevBlockId), D(b.MerkleRoot), D(b.Target), D(b.Noise), u64h(b.Nonce))
}

func Tid(t core.Tx) core.HashT         { return T(TxId(t)) }
func Mid(m core.MerkleNode) core.HashT { return T(MerkleId(m)) }
func Bid(b core.Block) core.HashT      { return T(BlockId(b)) }

func TxVSize(t core.Tx) uint64 {
	s := uint64(72)
	for _, i := range t.Inputs {
		s += 48 + uint64(len(i.PublicKey)) + uint64(len(i.Signature))
	}
	return s + 40*uint64(len(t.Outputs))
}

const CoinbaseSize = 112
const MinTxSize = 72 + 48 + 91

// A binary tree over the ids: pairs level by level, a trailing odd one doubled.
// Nodes children first, root last.
func Merkle(ids []core.HashT) []core.MerkleNode {
	var out []core.MerkleNode
	level := ids
	for {
		var up []core.HashT
		for i := 0; i < len(level); i += 2 {
			r := level[i]
			if i+1 < len(level) {
				r = level[i+1]
			}
			n := core.MerkleNode{LChild: level[i], RChild: r}
			out = append(out, n)
			up = append(up, Mid(n))
		}
		if len(up) == 1 {
			return out
		}
		level = up
	}
}
