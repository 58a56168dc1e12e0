//go:build go1.25

package wire

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Gone ends a script whose other side does not answer as needed.
type Gone struct{ Why string }

// Foe is one end of a connection that speaks the protocol from its own
// encoder and can deviate from it anywhere.
type Foe struct {
	T        *pbt.T
	C        *net.TCPConn
	Init     bool
	Sent     int64
	Got      int64
	Patience time.Duration
	// At is the piece (counted by K) that is tampered with, by Tamper.
	K, At  int
	Tamper func(piece []byte, framed bool) (out []byte, stop bool)
	dead   bool
	// OnCmd handles a command of the other side after it was acknowledged.
	OnCmd func(cmd string)
	Log   []string
}

func (f *Foe) raw(b []byte) {
	if f.dead {
		panic(Gone{"silent"})
	}
	f.C.SetWriteDeadline(time.Now().Add(2 * time.Second))
	n, err := f.C.Write(b)
	f.Sent += int64(n)
	if err != nil {
		panic(Gone{"write: " + err.Error()})
	}
}

// Raw sends bytes as they are.
func (f *Foe) Raw(b []byte) { f.raw(b) }

func (f *Foe) piece(b []byte, framed bool) {
	k := f.K
	f.K++
	if f.Tamper != nil && k == f.At {
		out, stop := f.Tamper(b, framed)
		if len(out) > 0 {
			f.raw(out)
		}
		if stop {
			f.dead = true
			panic(Gone{"silent"})
		}
		return
	}
	f.raw(b)
}

// Frame is a message with its length in front.
func Frame(b []byte) []byte {
	out := binary.BigEndian.AppendUint16(nil, uint16(len(b)))
	return append(out, b...)
}

func U64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

func (f *Foe) Bytes(b []byte)    { f.piece(Frame(b), true) }
func (f *Foe) Str(s string)      { f.Bytes([]byte(s)) }
func (f *Foe) Hash(h core.HashT) { d := h.Data(); f.piece(d[:], false) }
func (f *Foe) Num(v uint64)      { f.piece(U64(v), false) }
func (f *Foe) Flag(v bool) {
	b := byte(0)
	if v {
		b = 1
	}
	f.piece([]byte{b}, false)
}
func (f *Foe) note(s string) { f.Log = append(f.Log, s) }
func (f *Foe) Patient() time.Duration {
	if f.Patience > 0 {
		return f.Patience
	}
	return 500 * time.Millisecond
}

// Get reads exactly n bytes.
func (f *Foe) Get(n int) []byte {
	b := make([]byte, n)
	f.C.SetReadDeadline(time.Now().Add(f.Patient()))
	m, err := io.ReadFull(f.C, b)
	f.Got += int64(m)
	if err != nil {
		panic(Gone{fmt.Sprintf("read: %v", err)})
	}
	return b
}

func (f *Foe) GetStr() string {
	return string(f.Get(int(binary.BigEndian.Uint16(f.Get(2)))))
}
func (f *Foe) GetHash() core.HashT { return core.NewHashTFromBytes(f.Get(32)) }
func (f *Foe) GetNum() uint64      { return binary.BigEndian.Uint64(f.Get(8)) }
func (f *Foe) GetFlag() bool       { return f.Get(1)[0] == 1 }

func (f *Foe) Want(s string) {
	if g := f.GetStr(); g != s {
		panic(Gone{fmt.Sprintf("%q came instead of %q", g, s)})
	}
}

// Try runs a script; it reports why the script ended early, if it did.
func Try(fn func()) (why string) {
	defer func() {
		if r := recover(); r != nil {
			g, ok := r.(Gone)
			if !ok {
				panic(r)
			}
			why = g.Why
		}
	}()
	fn()
	return ""
}

// Command issues a command, also when the other side issues one at the same time.
func (f *Foe) Command(name string, handler func()) {
	f.Str("cmd:" + name)
	resp := f.GetStr()
	if resp == "ack:"+name {
		handler()
		return
	}
	if len(resp) < 4 || resp[:4] != "cmd:" {
		panic(Gone{fmt.Sprintf("%q in answer to a command", resp)})
	}
	if f.Init {
		f.Handle(resp)
		f.Want("ack:" + name)
		handler()
	} else {
		f.Want("ack:" + name)
		handler()
		f.Handle(resp)
	}
}

// Handle answers a command.
func (f *Foe) Handle(msg string) {
	if msg == "cmd:close" {
		panic(Gone{"closed"})
	}
	if len(msg) < 4 || msg[:4] != "cmd:" {
		panic(Gone{fmt.Sprintf("%q is no command", msg)})
	}
	f.Str("ack:" + msg[4:])
	f.note(msg[4:])
	f.OnCmd(msg[4:])
}

// Serve answers commands for d.
func (f *Foe) Serve(d time.Duration) {
	until := time.Now().Add(d)
	for {
		left := time.Until(until)
		if left <= 0 {
			return
		}
		f.C.SetReadDeadline(time.Now().Add(left))
		var b [1]byte
		n, err := f.C.Read(b[:])
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return
		}
		if err != nil {
			panic(Gone{"read: " + err.Error()})
		}
		f.Got += int64(n)
		size := int(b[0])<<8 | int(f.Get(1)[0])
		f.Handle(string(f.Get(size)))
	}
}

// Block, Merkle and Tx encode the entities.
func (f *Foe) Block(b core.Block) {
	f.Hash(b.PrevBlockId)
	f.Hash(b.MerkleRoot)
	f.Hash(b.Target)
	f.Hash(b.Noise)
	f.Num(b.Nonce)
	f.Num(b.MinedTime)
}

func (f *Foe) Merkle(m core.MerkleNode) {
	f.Hash(m.LChild)
	f.Hash(m.RChild)
}

func (f *Foe) Tx(tx core.Tx) {
	f.Flag(tx.IsCoinbase)
	f.Num(tx.MinBlock)
	f.Num(uint64(len(tx.Inputs)))
	f.Num(uint64(len(tx.Outputs)))
	for _, i := range tx.Inputs {
		f.Hash(i.Utxo.TxId)
		f.Num(i.Utxo.Ind)
		f.Num(i.Utxo.Value)
		f.Bytes(i.PublicKey)
		f.Bytes(i.Signature)
	}
	for _, o := range tx.Outputs {
		f.Num(o.Value)
		f.Hash(o.PublicKeyHash)
	}
}

func (f *Foe) GetBlock() core.Block {
	return core.Block{PrevBlockId: f.GetHash(), MerkleRoot: f.GetHash(), Target: f.GetHash(), Noise: f.GetHash(),
		Nonce: f.GetNum(), MinedTime: f.GetNum()}
}

func (f *Foe) GetMerkle() core.MerkleNode {
	return core.MerkleNode{LChild: f.GetHash(), RChild: f.GetHash()}
}

func (f *Foe) GetTx() core.Tx {
	tx := core.Tx{IsCoinbase: f.GetFlag(), MinBlock: f.GetNum(), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	ni, no := f.GetNum(), f.GetNum()
	if ni > 1<<20 || no > 1<<20 {
		panic(Gone{"counts"})
	}
	for range ni {
		tx.Inputs = append(tx.Inputs, core.TxIn{
			Utxo:      core.Utxo{TxId: f.GetHash(), Ind: f.GetNum(), Value: f.GetNum()},
			PublicKey: []byte(f.GetStr()), Signature: []byte(f.GetStr())})
	}
	for range no {
		tx.Outputs = append(tx.Outputs, core.TxOut{Value: f.GetNum(), PublicKeyHash: f.GetHash()})
	}
	return tx
}

// Offer is what a side claims and serves in a sync.
type Offer struct {
	Work, Head core.HashT
	Ids        []core.HashT // walk from the head down
	Blocks     []core.Block // for the ids the other side lacks, same order
	Txs        map[core.HashT]core.Tx
	Merkles    map[core.HashT]core.MerkleNode
	Entity     func(id core.HashT) bool // overrides an answer
	Served     int
	Told       *bool // the verdict, once given
	Cancelled  bool
	Done       bool
}

// Sync runs the sender's part of a sync after the command was acknowledged.
func (f *Foe) Sync(o *Offer) {
	f.Hash(o.Work)
	f.Hash(o.Head)
	theirWork := f.GetHash()
	f.GetHash()
	if theirWork == o.Work {
		f.Str("cancel")
		f.GetStr()
		o.Cancelled = true
		return
	}
	f.Str("continue")
	if r := f.GetStr(); r != "continue" {
		o.Cancelled = true
		return
	}
	if model.Less(o.Work, theirWork) {
		f.Str("sync:recv")
		f.Want("sync:send")
		f.Receive(0, true, nil)
		return
	}
	f.Str("sync:send")
	f.Want("sync:recv")
	f.Send(o)
}

// Send is the sync from the block walk on.
func (f *Foe) Send(o *Offer) {
	need := 0
	for {
		id := core.HashT{}
		if need < len(o.Ids) {
			id = o.Ids[need]
		}
		f.Hash(id)
		if f.GetFlag() {
			break
		}
		if need++; need > len(o.Ids)+2 {
			panic(Gone{"the walk ended"})
		}
	}
	if need == 0 {
		return
	}
	for i := 0; i < need && i < len(o.Blocks); i++ {
		f.Block(o.Blocks[i])
	}
	v := f.GetFlag()
	o.Told = &v
	if !v {
		return
	}
	for {
		id := f.GetHash()
		if id.EqZero() {
			break
		}
		o.Served++
		if o.Entity != nil && o.Entity(id) {
			continue
		}
		if m, ok := o.Merkles[id]; ok {
			f.Flag(false)
			f.Merkle(m)
		} else if tx, ok := o.Txs[id]; ok {
			f.Flag(true)
			f.Tx(tx)
		} else {
			panic(Gone{"asked for an entity nobody has"})
		}
	}
	f.Want("complete")
	o.Done = true
}

// Receive takes a sync: deny the first so many known blocks, verdict, entities to ask for.
func (f *Foe) Receive(deny int, verdict bool, ask []core.HashT) {
	n := 0
	for {
		id := f.GetHash()
		if n >= deny && (deny > 0 || id.EqZero()) {
			f.Flag(true)
			break
		}
		f.Flag(false)
		if n++; id.EqZero() {
			panic(Gone{"the walk passed the root"})
		}
	}
	for range n {
		f.GetBlock()
	}
	f.Flag(verdict)
	if !verdict {
		return
	}
	for _, id := range ask {
		f.Hash(id)
		if f.GetFlag() {
			f.GetTx()
		} else {
			f.GetMerkle()
		}
	}
	f.Hash(core.HashT{})
	f.Str("complete")
}
