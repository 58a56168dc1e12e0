//go:build go1.25

package c15

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

func hash(t *pbt.T) core.HashT { return model.T(t.Hash32()) }

func blob(t *pbt.T) []byte {
	switch t.Weighted(3, 2, 2, 1) {
	case 0:
		return t.Bytes(t.Intn(4))
	case 1:
		return t.Bytes(91)
	case 2:
		return t.Bytes(70 + t.Intn(4))
	}
	return t.Bytes(t.Intn(300))
}

func utxo(t *pbt.T) core.Utxo { return core.Utxo{TxId: hash(t), Ind: t.U64(), Value: t.U64()} }

func txin(t *pbt.T) core.TxIn {
	return core.TxIn{Utxo: utxo(t), PublicKey: blob(t), Signature: blob(t)}
}

func txout(t *pbt.T) core.TxOut { return core.TxOut{Value: t.U64(), PublicKeyHash: hash(t)} }

func tx(t *pbt.T) core.Tx {
	x := core.Tx{IsCoinbase: t.Bool(), MinBlock: t.U64(), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	avg, most := 2, 12
	if t.Draw(60) == 59 { // a large one
		avg, most = 100, 400
	}
	t.Steps(0, avg, most, func(int) { x.Inputs = append(x.Inputs, txin(t)) })
	t.Steps(0, avg, most, func(int) { x.Outputs = append(x.Outputs, txout(t)) })
	return x
}

func block(t *pbt.T) core.Block {
	return core.Block{PrevBlockId: hash(t), MerkleRoot: hash(t), Target: hash(t), Noise: hash(t), Nonce: t.U64(), MinedTime: t.U64()}
}

// value is anything that has an id, with the id the model gives it.
type value struct {
	v    core.Hasher
	want core.HashT
	kind string
}

func anyValue(t *pbt.T) value {
	switch t.Weighted(6, 2, 3, 2, 2, 2) {
	case 0:
		v := tx(t)
		return value{v, model.Tid(v), "transaction"}
	case 1:
		v := core.MerkleNode{LChild: hash(t), RChild: hash(t)}
		return value{v, model.Mid(v), "merkle node"}
	case 2:
		v := block(t)
		return value{v, model.Bid(v), "block"}
	case 3:
		v := txin(t)
		return value{v, model.T(model.TxInId(v)), "input"}
	case 4:
		v := txout(t)
		return value{v, model.T(model.TxOutId(v)), "output"}
	}
	v := utxo(t)
	return value{v, model.T(model.UtxoId(v)), "unspent output"}
}

func flipH(t *pbt.T, h core.HashT) core.HashT {
	d := h.Data()
	d[t.Intn(32)] ^= 1 << t.Intn(8)
	return model.T(d)
}

func flipU(t *pbt.T, v uint64) uint64 { return v ^ 1<<t.Intn(64) }

func flipB(t *pbt.T, b []byte) []byte {
	b = append([]byte{}, b...)
	switch k := t.Intn(4); {
	case k == 1:
		return append(b, 0)
	case k == 2:
		return append([]byte{0}, b...)
	case k == 3 && len(b) > 0:
		return b[:len(b)-1]
	case len(b) > 0:
		b[t.Intn(len(b))] ^= 1 << t.Intn(8)
		return b
	}
	return append(b, 1)
}

func mutUtxo(t *pbt.T, u core.Utxo) (core.Utxo, string) {
	switch t.Intn(4) {
	case 0:
		u.Ind = flipU(t, u.Ind)
		return u, "index"
	case 1:
		u.Value = flipU(t, u.Value)
		return u, "value"
	case 2:
		if u.Ind != u.Value {
			u.Ind, u.Value = u.Value, u.Ind
			return u, "index and value swapped"
		}
	}
	u.TxId = flipH(t, u.TxId)
	return u, "transaction id"
}

func mutIn(t *pbt.T, i core.TxIn) (core.TxIn, string) {
	switch t.Intn(5) {
	case 0:
		i.PublicKey = flipB(t, i.PublicKey)
		return i, "public key"
	case 1:
		i.Signature = flipB(t, i.Signature)
		return i, "signature"
	case 2:
		if string(i.PublicKey) != string(i.Signature) {
			i.PublicKey, i.Signature = i.Signature, i.PublicKey
			return i, "key and signature swapped"
		}
	case 3:
		if n := len(i.PublicKey); n > 0 { // move a byte over
			i.Signature = append([]byte{i.PublicKey[n-1]}, i.Signature...)
			i.PublicKey = i.PublicKey[: n-1 : n-1]
			return i, "a byte moved from key to signature"
		}
	}
	var s string
	i.Utxo, s = mutUtxo(t, i.Utxo)
	return i, s
}

func mutOut(t *pbt.T, o core.TxOut) (core.TxOut, string) {
	if t.Bool() {
		o.Value = flipU(t, o.Value)
		return o, "value"
	}
	o.PublicKeyHash = flipH(t, o.PublicKeyHash)
	return o, "owner"
}

func same(a, b any) bool { return fmt.Sprintf("%v", a) == fmt.Sprintf("%v", b) }

// list changes a list: one element, the order, the number.
func list[K any](t *pbt.T, ls []K, fresh func() K, mut func(K) (K, string)) ([]K, string) {
	l := append([]K{}, ls...)
	n := len(l)
	switch t.Intn(6) {
	case 0:
		if n > 0 {
			i := t.Intn(n)
			var s string
			l[i], s = mut(l[i])
			return l, fmt.Sprintf("%s of element %d of %d", s, i, n)
		}
	case 1:
		if n > 1 {
			i := t.Intn(n - 1)
			j := i + 1 + t.Intn(n-1-i)
			if !same(l[i], l[j]) {
				l[i], l[j] = l[j], l[i]
				return l, fmt.Sprintf("order of elements %d and %d of %d", i, j, n)
			}
		}
	case 2:
		if n > 0 {
			i := t.Intn(n)
			return append(l[:i], l[i+1:]...), fmt.Sprintf("element %d of %d removed", i, n)
		}
	case 3:
		if n > 0 {
			return append(l, l[t.Intn(n)]), "an element repeated at the end"
		}
	case 4:
		return append([]K{fresh()}, l...), "an element added in front"
	}
	return append(l, fresh()), "an element added at the end"
}

// mutate changes exactly one thing about a value.
func mutate(t *pbt.T, v core.Hasher) (core.Hasher, string) {
	switch x := v.(type) {
	case core.Utxo:
		return two(mutUtxo(t, x))
	case core.TxIn:
		return two(mutIn(t, x))
	case core.TxOut:
		return two(mutOut(t, x))
	case core.MerkleNode:
		switch t.Intn(3) {
		case 0:
			x.LChild = flipH(t, x.LChild)
			return x, "left child"
		case 1:
			if x.LChild != x.RChild {
				x.LChild, x.RChild = x.RChild, x.LChild
				return x, "children swapped"
			}
		}
		x.RChild = flipH(t, x.RChild)
		return x, "right child"
	case core.Block:
		switch t.Intn(7) {
		case 0:
			x.PrevBlockId = flipH(t, x.PrevBlockId)
			return x, "parent"
		case 1:
			x.MerkleRoot = flipH(t, x.MerkleRoot)
			return x, "root"
		case 2:
			x.Target = flipH(t, x.Target)
			return x, "target"
		case 3:
			x.Noise = flipH(t, x.Noise)
			return x, "noise"
		case 4:
			if x.PrevBlockId != x.MerkleRoot {
				x.PrevBlockId, x.MerkleRoot = x.MerkleRoot, x.PrevBlockId
				return x, "parent and root swapped"
			}
		case 5:
			if x.Target != x.Noise {
				x.Target, x.Noise = x.Noise, x.Target
				return x, "target and noise swapped"
			}
		}
		x.Nonce = flipU(t, x.Nonce)
		return x, "nonce"
	case core.Tx:
		switch t.Weighted(1, 2, 4, 4) {
		case 0:
			x.IsCoinbase = !x.IsCoinbase
			return x, "coinbase mark"
		case 1:
			x.MinBlock = flipU(t, x.MinBlock)
			return x, "minimum height"
		case 2:
			l, s := list(t, x.Inputs, func() core.TxIn { return txin(t) }, func(i core.TxIn) (core.TxIn, string) { return mutIn(t, i) })
			x.Inputs = l
			return x, "inputs: " + s
		default:
			l, s := list(t, x.Outputs, func() core.TxOut { return txout(t) }, func(i core.TxOut) (core.TxOut, string) { return mutOut(t, i) })
			x.Outputs = l
			return x, "outputs: " + s
		}
	}
	panic("unknown kind")
}

func two[K core.Hasher](v K, s string) (core.Hasher, string) { return v, s }

func viaJson[K any](t *pbt.T, v K) K {
	b, err := json.Marshal(v)
	t.Check(err == nil, "json-out", "cannot be written as JSON: %v", err)
	var out K
	err = json.Unmarshal(b, &out)
	t.Check(err == nil, "json-in", "its JSON cannot be read: %v: %s", err, b)
	return out
}

// reread gives the value after serialisation in some way.
func reread(t *pbt.T, v core.Hasher) (core.Hasher, string) {
	way := t.Intn(2)
	switch x := v.(type) {
	case core.Utxo:
		return viaJson(t, x), "json"
	case core.TxIn:
		return viaJson(t, x), "json"
	case core.TxOut:
		return viaJson(t, x), "json"
	case core.MerkleNode:
		if way == 1 {
			r, err := inv.MerkleRecordFromString(inv.MerkleRecord{Merkle: x, VSize: 5}.String())
			t.Check(err == nil, "record-in", "its record cannot be read: %v", err)
			return r.Merkle, "record"
		}
		return viaJson(t, x), "json"
	case core.Block:
		if way == 1 {
			r, err := inv.BlockRecordFromString(inv.BlockRecord{Block: x, Height: 5, TotalWork: hash(t)}.String())
			t.Check(err == nil, "record-in", "its record cannot be read: %v", err)
			return r.Block, "record"
		}
		return viaJson(t, x), "json"
	case core.Tx:
		for _, i := range x.Inputs {
			if len(i.Signature) == 0 || len(i.PublicKey) == 0 { // never stored: cannot be valid
				way = 0
			}
		}
		if way == 1 {
			r, err := inv.TxRecordFromString(inv.TxRecord{Tx: x, VSize: model.TxVSize(x)}.String())
			t.Check(err == nil, "record-in", "its record cannot be read: %v", err)
			return r.Tx, "record"
		}
		return viaJson(t, x), "json"
	}
	panic("unknown kind")
}

func TestWorker(t *testing.T) {
	pbt.Main(t, []pbt.Arm{
		{Name: "ids", Rule: "Generated transactions (0-12 inputs and outputs, any amounts, keys and signatures of any length), merkle nodes, blocks, inputs and outputs; " +
			"the id equals the model's, before and after serialisation, and computing it changes nothing. Non-trivial: not all zero.",
			Quick: 20000, Thorough: 600000, Run: func(t *pbt.T) {
				v := anyValue(t)
				t.Note("%s %.300v", v.kind, v.v)
				before := fmt.Sprintf("%#v", v.v)
				got := v.v.Hash()
				if !same(v.v, zeroOf(v.v)) {
					t.NonTrivial()
				}
				t.Check(got == v.want, "id-of:"+v.kind, "the id of this %s is %s, expected %s", v.kind, got, v.want)
				t.Check(v.v.Hash() == got && before == fmt.Sprintf("%#v", v.v), "unstable:"+v.kind, "computing the id of a %s twice gives another result or changes it", v.kind)
				r, how := reread(t, v.v)
				t.Check(r.Hash() == got, "serialised:"+v.kind, "the id of a %s changes by %s serialisation", v.kind, how)
				t.Check(same(r, v.v), "serialised-content:"+v.kind, "a %s changes by %s serialisation:\n%v\n%v", v.kind, how, v.v, r)
			}},
		{Name: "commit", Rule: "A generated value and one derived by changing exactly one thing (a field, a bit, an element, order or number of inputs and outputs, " +
			"swapped fields, a byte moved between neighbours); ids differ. Non-trivial: always.",
			Quick: 20000, Thorough: 600000, Run: func(t *pbt.T) {
				v := anyValue(t)
				w, what := mutate(t, v.v)
				t.Note("%s %.300v; changed: %s", v.kind, v.v, what)
				if same(v.v, w) {
					t.Discard()
				}
				t.NonTrivial()
				t.Label(v.kind)
				t.Check(v.v.Hash() != w.Hash(), "same-id:"+v.kind, "changing the %s leaves its id the same", what)
			}},
		{Name: "mined-time", Rule: "A generated block and the same one with another timestamp; ids differ. Non-trivial: always.",
			Quick: 50, Thorough: 200, Run: func(t *pbt.T) {
				b := block(t)
				c := b
				c.MinedTime = flipU(t, c.MinedTime)
				t.Note("%v and timestamp %d", b, c.MinedTime)
				t.NonTrivial()
				t.Check(b.Hash() != c.Hash(), "block-id-ignores-timestamp", "blocks that differ only in their timestamp have the same id")
			}},
		{Name: "primitives", Rule: "Byte strings, integers, booleans and lists of these hashed with the exported hash functions and by the model. Non-trivial: non-empty input.",
			Quick: 10000, Thorough: 200000, Run: func(t *pbt.T) {
				b, u, f, h := blob(t), t.U64(), t.Bool(), hash(t)
				t.Note("%x %d %v %s", b, u, f, h)
				if len(b) > 0 {
					t.NonTrivial()
				}
				eq := func(name string, got core.HashT, want model.H) {
					t.Check(got == model.T(want), name, "%s gives %s, expected %s", name, got, model.T(want))
				}
				eq("bytes", core.DHashBytes(b), model.BytesHash(b))
				eq("uint64", core.DHashUint64(u), model.Uint64Hash(u))
				eq("bool", core.DHashBool(f), model.BoolHash(f))
				eq("various", core.DHashVarious(b, u, f, h), model.CombHash(model.BytesHash(b), model.Uint64Hash(u), model.BoolHash(f), model.D(h)))
				var hs []core.HashT
				var ms []model.H
				big := t.Draw(60) == 59
				t.Steps(0, map[bool]int{false: 3, true: 100}[big], map[bool]int{false: 10, true: 500}[big], func(int) { x := hash(t); hs = append(hs, x); ms = append(ms, model.D(x)) })
				eq("hashes", core.DHashHashes(hs), model.CombHash(ms...))
				eq("list", core.DHashList(hs), model.CombHash(ms...))
			}},
	})
}

func zeroOf(v core.Hasher) any {
	switch v.(type) {
	case core.Tx:
		return core.Tx{}
	case core.Block:
		return core.Block{}
	case core.MerkleNode:
		return core.MerkleNode{}
	case core.TxIn:
		return core.TxIn{}
	case core.TxOut:
		return core.TxOut{}
	}
	return core.Utxo{}
}
