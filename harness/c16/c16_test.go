//go:build go1.25

package c16

import (
	"bytes"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/wire"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
)

// item is one value to send.
type item struct {
	kind   string
	line   string
	entity bool
	write  func(c *prot.Conn)
	read   func(c *prot.Conn) any // with the right id
	wrong  func(c *prot.Conn, id core.HashT) any
	poll   func(c *prot.Conn) any // read with short timeouts
	idOf   func(v any) core.HashT
	id     core.HashT
	want   any
}

func hash(t *pbt.T) core.HashT { return model.T(t.Hash32()) }

func blob(t *pbt.T) []byte {
	switch t.Weighted(4, 3, 2, 1) {
	case 0:
		return t.Bytes(t.Intn(4))
	case 1:
		return t.Bytes(91 - t.Intn(22))
	case 2:
		return t.Bytes(250 + t.Intn(20))
	}
	return t.Bytes(t.Intn(3000))
}

func bigBlob(t *pbt.T) []byte {
	switch t.Weighted(3, 3, 2, 1, 1) {
	case 0:
		return t.Bytes(t.Intn(40))
	case 1:
		return t.Bytes(250 + t.Intn(20))
	case 2:
		return t.Bytes(t.Intn(5000))
	case 3:
		return t.Bytes(65535 - t.Intn(3))
	}
	return t.Bytes(32760 + t.Intn(20))
}

func genTx(t *pbt.T) core.Tx {
	x := core.Tx{IsCoinbase: t.Bool(), MinBlock: t.U64(), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	t.Steps(0, 2, 12, func(int) {
		x.Inputs = append(x.Inputs, core.TxIn{
			Utxo:      core.Utxo{TxId: hash(t), Ind: t.U64(), Value: t.U64()},
			PublicKey: blob(t), Signature: blob(t)})
	})
	n := 0
	if t.Intn(10) == 9 {
		n = t.Intn(300)
		if t.Intn(4) == 3 {
			n *= 10
		}
	}
	if t.Intn(20) == 19 {
		for i := t.Intn(700); i > 0; i-- {
			x.Inputs = append(x.Inputs, core.TxIn{Utxo: core.Utxo{Ind: uint64(i), Value: 1}, PublicKey: []byte{1, byte(i)}, Signature: []byte{}})
		}
	}
	for i := 0; i < n; i++ {
		x.Outputs = append(x.Outputs, core.TxOut{Value: uint64(i), PublicKeyHash: core.HashT{}})
	}
	t.Steps(0, 2, 12, func(int) { x.Outputs = append(x.Outputs, core.TxOut{Value: t.U64(), PublicKeyHash: hash(t)}) })
	return x
}

// gap shows an entity with empty lists as nil or not alike.
func norm(x core.Tx) core.Tx {
	if x.Inputs == nil {
		x.Inputs = []core.TxIn{}
	}
	if x.Outputs == nil {
		x.Outputs = []core.TxOut{}
	}
	for i := range x.Inputs {
		if x.Inputs[i].PublicKey == nil {
			x.Inputs[i].PublicKey = []byte{}
		}
		if x.Inputs[i].Signature == nil {
			x.Inputs[i].Signature = []byte{}
		}
	}
	return x
}

func genItem(t *pbt.T) item {
	switch t.Weighted(3, 3, 3, 5, 3, 4, 3, 6) {
	case 0:
		v := hash(t)
		return item{kind: "hash", line: v.String()[:8], want: v,
			write: func(c *prot.Conn) { c.WriteHashT(v) }, read: func(c *prot.Conn) any { return c.ReadHashT() }}
	case 1:
		v := t.U64()
		return item{kind: "integer", line: fmt.Sprint(v), want: v,
			write: func(c *prot.Conn) { c.WriteUint64(v) }, read: func(c *prot.Conn) any { return c.ReadUint64() }}
	case 2:
		v := t.Bool()
		return item{kind: "boolean", line: fmt.Sprint(v), want: v,
			write: func(c *prot.Conn) { c.WriteBool(v) }, read: func(c *prot.Conn) any { return c.ReadBool() }}
	case 3:
		v := bigBlob(t)
		return item{kind: "bytes", line: fmt.Sprintf("%d long", len(v)), want: v,
			write: func(c *prot.Conn) { c.Write(v) }, read: func(c *prot.Conn) any { return c.Read() }, poll: poll}
	case 4:
		v := string(blob(t))
		return item{kind: "string", line: fmt.Sprintf("%d long", len(v)), want: v,
			write: func(c *prot.Conn) { c.WriteString(v) }, read: func(c *prot.Conn) any { return c.ReadString() },
			poll: func(c *prot.Conn) any {
				b, ok := poll(c).([]byte)
				if !ok {
					return nil
				}
				return string(b)
			}}
	case 5:
		v := core.Block{PrevBlockId: hash(t), MerkleRoot: hash(t), Target: hash(t), Noise: hash(t), Nonce: t.U64(), MinedTime: t.U64()}
		return item{kind: "block", line: v.Hash().String()[:8], want: v, entity: true, id: v.Hash(),
			write: func(c *prot.Conn) { c.WriteBlock(v) }, read: func(c *prot.Conn) any { return c.ReadBlock(v.Hash()) },
			wrong: func(c *prot.Conn, id core.HashT) any { return c.ReadBlock(id) },
			idOf:  func(x any) core.HashT { return x.(core.Block).Hash() }}
	case 6:
		v := core.MerkleNode{LChild: hash(t), RChild: hash(t)}
		return item{kind: "merkle node", line: v.Hash().String()[:8], want: v, entity: true, id: v.Hash(),
			write: func(c *prot.Conn) { c.WriteMerkle(v) }, read: func(c *prot.Conn) any { return c.ReadMerkle(v.Hash()) },
			wrong: func(c *prot.Conn, id core.HashT) any { return c.ReadMerkle(id) },
			idOf:  func(x any) core.HashT { return x.(core.MerkleNode).Hash() }}
	}
	v := genTx(t)
	return item{kind: "transaction", line: fmt.Sprintf("%s %d in %d out", v.Hash().String()[:8], len(v.Inputs), len(v.Outputs)),
		want: v, entity: true, id: v.Hash(),
		write: func(c *prot.Conn) { c.WriteTx(v) }, read: func(c *prot.Conn) any { return norm(c.ReadTx(v.Hash())) },
		wrong: func(c *prot.Conn, id core.HashT) any { return norm(c.ReadTx(id)) },
		idOf:  func(x any) core.HashT { return x.(core.Tx).Hash() }}
}

// poll reads a byte string the way an idle peer does: short timeouts, try again.
func poll(c *prot.Conn) any {
	for {
		b := c.ReadTimeout(15 * time.Millisecond)
		if !c.HasErr() {
			return b
		}
		err := c.Err()
		if !os.IsTimeout(err) {
			return err
		}
	}
}

func equal(a, b any) bool {
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

func show(v any) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// within runs f; a hang is a failure.
func within(t *pbt.T, what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			panic(r)
		}
	case <-time.After(100 * time.Second):
		t.Fail("stuck:"+what, "%s does not finish within 100 s", what)
	}
}

func run(t *pbt.T, mode string) {
	l := wire.NewLink()
	defer l.Close()
	l.Start()
	a, b := l.Conns("alice", "bob")
	if a.HasErr() || b.HasErr() {
		t.Fail("handshake", "the handshake fails: %v %v", a.Err(), b.Err())
	}
	w, r, p := a, b, l.AB
	if t.Bool() { // the accepting end writes
		w, r, p = b, a, l.BA
	}
	var items []item
	t.Steps(1, 5, 20, func(int) { items = append(items, genItem(t)) })
	// one by one, undisturbed
	var marks []int64
	start := p.Count()
	for i, x := range items {
		var got any
		within(t, "carrying one value", func() {
			go x.write(w)
			got = x.read(r)
		})
		if r.HasErr() {
			t.Fail("lost:"+x.kind, "reading a %s (%s) fails: %v", x.kind, x.line, r.Err())
		}
		if !equal(got, x.want) {
			t.Fail("changed:"+x.kind, "value %d, a %s, arrives as %s, was %s", i, x.kind, show(got), show(x.want))
		}
		marks = append(marks, p.Count()-start)
		t.Note("%s %s: %d bytes", x.kind, x.line, p.Count()-start)
	}
	total := marks[len(marks)-1]
	if l := len(items); l == 0 || w.HasErr() {
		t.Fail("write-error", "writing sets an error: %v", w.Err())
	}
	switch mode {
	case "split":
		cuts := wire.Cuts(t, total, marks)
		idle := -1
		for i, x := range items {
			if x.poll != nil && t.Intn(3) == 1 {
				idle = i
				break
			}
		}
		if idle >= 0 { // the stream pauses somewhere around this value's first bytes
			at := int64(t.Intn(3))
			if idle > 0 {
				at += marks[idle-1]
			}
			t.Note("pause after %d bytes, value %d is read with short timeouts", at, idle)
			cuts = append(cuts, wire.Cut{At: at, Sleep: time.Duration(30+t.Intn(30)) * time.Millisecond})
			for j := len(cuts) - 1; j > 0 && cuts[j].At < cuts[j-1].At; j-- {
				cuts[j], cuts[j-1] = cuts[j-1], cuts[j]
			}
		}
		t.Note("%d splits: %s", len(cuts), places(cuts))
		p.Program(cuts)
		big := -1
		if t.Intn(4) == 1 {
			big = t.Intn(len(items) + 1)
		}
		extra := 0
		if big >= 0 {
			extra = []int{0, 1, 2, 65536, 1 << 20}[t.Intn(5)]
			t.Note("a string of %d bytes is offered before value %d", 65536+extra, big)
		}
		sendErr := make(chan string, 1)
		go func() {
			for i := 0; i <= len(items); i++ {
				if i == big {
					if extra%2 == 0 {
						w.Write(make([]byte, 65536+extra))
					} else {
						w.WriteString(string(make([]byte, 65536+extra)))
					}
					if !w.HasErr() {
						sendErr <- "oversize"
						return
					}
					w.Err()
				}
				if i < len(items) {
					items[i].write(w)
					if w.HasErr() {
						sendErr <- w.Err().Error()
						return
					}
				}
			}
			sendErr <- ""
		}()
		for i, x := range items {
			var got any
			within(t, "carrying values", func() {
				if i == idle {
					got = x.poll(r)
				} else {
					got = x.read(r)
				}
			})
			if r.HasErr() || !equal(got, x.want) {
				select {
				case e := <-sendErr:
					if e == "oversize" {
						t.Fail("oversize", "a string of %d bytes is not refused by the sender", 65536+extra)
					}
				default:
				}
			}
			if r.HasErr() {
				t.Fail("lost:"+x.kind, "reading value %d, a %s, fails: %v", i, x.kind, r.Err())
			}
			if !equal(got, x.want) {
				t.Fail("changed:"+x.kind, "value %d, a %s, arrives as %s, was %s", i, x.kind, show(got), show(x.want))
			}
		}
		var e string
		within(t, "sending", func() { e = <-sendErr })
		if e == "oversize" {
			t.Fail("oversize", "a string of %d bytes is not refused by the sender", 65536+extra)
		} else if e != "" {
			t.Fail("write-error", "writing sets an error: %s", e)
		}
		// nothing is left over
		w.WriteUint64(0x1122334455667788)
		var v uint64
		within(t, "carrying an integer", func() { v = r.ReadUint64() })
		t.Check(!r.HasErr() && v == 0x1122334455667788, "misaligned", "after all values the stream is not aligned: read %x", v)
		if len(cuts) > 0 && len(items) > 1 {
			t.NonTrivial()
		}
		if idle >= 0 {
			t.Label("read with short timeouts across a pause")
		}
		if big >= 0 {
			t.Label("oversized string offered")
		}
	case "wrong":
		// one entity is asked for under another id
		k := -1
		for i, x := range items {
			if x.entity && (k < 0 || t.Bool()) {
				k = i
			}
		}
		if k < 0 {
			t.Discard()
		}
		id := hash(t)
		d := items[k].id.Data()
		switch t.Intn(4) {
		case 0: // nearly the same id
			d[t.Intn(32)] ^= 1 << t.Intn(8)
			id = model.T(d)
		case 1: // another entity's
			for i, x := range items {
				if x.entity && i != k && x.kind != items[k].kind {
					id = x.id
				}
			}
		}
		if id == items[k].id {
			t.Discard()
		}
		go func() {
			for _, x := range items {
				x.write(w)
			}
		}()
		for i, x := range items {
			if i < k {
				within(t, "carrying values", func() { x.read(r) })
				continue
			}
			var got any
			within(t, "reading", func() { got = x.wrong(r, id) })
			if !r.HasErr() {
				t.Fail("wrong-id:"+x.kind, "a %s that was not asked for is taken: %s", x.kind, show(got))
			}
			break
		}
		t.NonTrivial()
	case "truncate":
		p0 := int64(t.Draw(uint64(total)))
		if t.Bool() {
			p0 = pbt.Pick(t, marks) - int64(t.Intn(4))
			if p0 < 0 {
				p0 = 0
			}
		}
		t.Note("stream ends after %d of %d bytes", p0, total)
		p.Program([]wire.Cut{{At: p0, End: true}})
		go func() {
			for _, x := range items {
				x.write(w)
			}
			w.WriteUint64(0) // the stream ends when this is on its way
		}()
		for i, x := range items {
			var got any
			within(t, "reading a cut stream", func() { got = x.read(r) })
			if marks[i] <= p0 {
				if r.HasErr() {
					t.Fail("lost:"+x.kind, "value %d, a %s, arrived completely but reading it fails: %v", i, x.kind, r.Err())
				}
				if !equal(got, x.want) {
					t.Fail("changed:"+x.kind, "value %d, a %s, arrives as %s, was %s", i, x.kind, show(got), show(x.want))
				}
			} else if !r.HasErr() {
				t.Fail("truncated:"+x.kind, "value %d, a %s, is read as %s though the stream ended within it", i, x.kind, show(got))
			}
		}
		t.NonTrivial()
	case "corrupt":
		p0 := int64(t.Draw(uint64(total)))
		k := 0
		for marks[k] <= p0 {
			k++
		}
		for j := 0; j < 3 && !items[k].entity; j++ {
			p0 = int64(t.Draw(uint64(total)))
			for k = 0; marks[k] <= p0; {
				k++
			}
		}
		flip := byte(1 << t.Intn(8))
		if t.Intn(4) == 1 {
			flip = byte(1 + t.Intn(255))
		}
		t.Note("byte %d of %d, in value %d, is changed by %#x", p0, total, k, flip)
		p.Program([]wire.Cut{{At: p0, Flip: flip}, {At: total, End: true}})
		go func() {
			for _, x := range items {
				x.write(w)
			}
			w.WriteUint64(0)
			w.WriteUint64(0)
		}()
		for i, x := range items[:k+1] {
			var got any
			within(t, "reading a corrupted stream", func() { got = x.read(r) })
			if i < k {
				if r.HasErr() {
					t.Fail("lost:"+x.kind, "value %d, a %s, arrived completely but reading it fails: %v", i, x.kind, r.Err())
				}
				if !equal(got, x.want) {
					t.Fail("changed:"+x.kind, "value %d, a %s, arrives as %s, was %s", i, x.kind, show(got), show(x.want))
				}
				continue
			}
			if x.entity && !r.HasErr() {
				if got := x.idOf(got); got != x.id {
					t.Fail("corrupted:"+x.kind, "a corrupted %s is taken under an id that is not its own (byte %d flipped by %#x)", x.kind, p0, flip)
				}
				t.Label("corruption outside the id")
			}
			if x.entity {
				t.NonTrivial()
			}
		}
	}
}

func places(cs []wire.Cut) string {
	s := ""
	for i, c := range cs {
		if i > 12 {
			return s + "..."
		}
		s += fmt.Sprintf("%d ", c.At)
	}
	return s
}

func arm(mode string, quick, thorough int, rule string) pbt.Arm {
	return pbt.Arm{Name: mode, Quick: quick, Thorough: thorough, Chunk: 60, Par: 8, StallS: 120, MemMB: 8192,
		Rule: rule, Run: func(t *pbt.T) { run(t, mode) }}
}

func TestPBT(tt *testing.T) {
	pbt.Main(tt, []pbt.Arm{
		arm("split", 9000, 300000, "1-20 values (hashes, integers, booleans, strings up to 65535 bytes and refused longer ones, blocks, merkle nodes, transactions) over loopback TCP, one by one and again with the stream split at drawn places (value boundaries, runs of single bytes) and paused while the reader polls; non-trivial: several values and a split"),
		arm("wrong", 3000, 60000, "an entity is asked for under another id; every such case counts"),
		arm("truncate", 4000, 120000, "the stream ends at a drawn byte: values before it arrive, later ones are errors"),
		arm("corrupt", 6000, 200000, "one byte is changed; an entity with it is refused or still matches its id; non-trivial: the byte lies in an entity"),
	})
}
