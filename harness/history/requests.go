//go:build go1.25

package history

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"path"
	"strconv"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/zverif/api"
	"github.com/levilutz/basiccoin/internal/zverif/gen"
	"github.com/levilutz/basiccoin/internal/zverif/model"
	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/internal/zverif/rules"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type endpoint struct {
	path, method, key string
	wallet, admin     bool
}

var endpoints = []endpoint{
	{path: "/version", method: "GET"},
	{path: "/wallet/head/height", method: "GET", wallet: true},
	{path: "/wallet/balance", method: "GET", key: "publicKeyHash", wallet: true},
	{path: "/wallet/utxos", method: "GET", key: "publicKeyHash", wallet: true},
	{path: "/wallet/tx", method: "GET POST", key: "txId", wallet: true},
	{path: "/wallet/tx/confirms", method: "GET", key: "txId", wallet: true},
	{path: "/wallet/tx/block", method: "GET", key: "txId", wallet: true},
	{path: "/wallet/merkle", method: "GET", key: "merkleId", wallet: true},
	{path: "/wallet/block", method: "GET", key: "blockId", wallet: true},
	{path: "/wallet/richlist", method: "GET", key: "maxLen", wallet: true},
	{path: "/admin/terminate", method: "POST", admin: true},
}

// A request as drawn.
type request struct {
	method, path, query string
	pw                  []string
	body                []byte
	broken              bool // reading the body fails at its end
	header              http.Header
}

func (q request) String() string {
	b := string(q.body)
	if len(b) > 200 {
		b = fmt.Sprintf("%s... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%s %s?%s pw=%q body=%q broken=%v", q.method, q.path, q.query, q.pw, b, q.broken)
}

type brokenReader struct{ r io.Reader }

func (b brokenReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

// R is the machine of C25.
type R struct {
	*Web
	P    rest.Params
	term topic.Sub[bus.TerminateCommand]
}

var passwords = []string{"", "pw", "secret-Password 1", "pässwörd", "a", "   x", "x"}

// mutate a string a little.
func mutate(t *pbt.T, s string) string {
	b := []byte(s)
	for n := 1 + t.Intn(3); n > 0; n-- {
		switch t.Intn(6) {
		case 0:
			if len(b) > 0 {
				b = b[:t.Intn(len(b))]
			}
		case 1:
			i := t.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{byte(t.Draw(256))}, b[i:]...)...)
		case 2:
			if len(b) > 0 {
				b[t.Intn(len(b))] = byte(t.Draw(256))
			}
		case 3:
			if len(b) > 0 {
				i := t.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 4:
			b = append(b, b...)
		case 5:
			b = bytes.ToUpper(b)
		}
	}
	return string(b)
}

func (w *R) path() string {
	t := w.h.T
	e := pbt.Pick(t, endpoints)
	p := e.path
	switch t.Weighted(24, 1, 1, 1, 1, 1, 1, 1) {
	case 1:
		p += "/"
	case 2:
		p = "/" + p
	case 3:
		i := strings.LastIndex(p, "/")
		p = p[:i] + pbt.Pick(t, []string{"/.", "/..", "/x/..", "/"}) + p[i:]
	case 4:
		i := 1 + t.Intn(len(p)-1)
		p = p[:i] + fmt.Sprintf("%%%02x", p[i]) + p[i+1:]
	case 5:
		p = p[:strings.LastIndex(p, "/")]
	case 6:
		p = pbt.Pick(t, []string{"/", "", "/favicon.ico", "/wallet", "/admin", "/wallet/tx/", "/wallet/tx/x", "/v1/version", "/*"})
	case 7:
		p = "/" + strings.TrimLeft(mutate(t, p), "/")
	}
	return p
}

func (w *R) idList(key string) string {
	t := w.h.T
	var ids []core.HashT
	switch key {
	case "publicKeyHash":
		ids = w.pkhs()
	case "txId":
		ids = w.ids()
	default:
		for i := 1 + t.Intn(3); i > 0; i-- {
			b := w.h.randomBlock()
			ids = append(ids, pbt.Pick(t, []core.HashT{b.Id, b.B.MerkleRoot, model.T(t.Hash32())}))
		}
	}
	var ls []string
	for _, id := range ids {
		ls = append(ls, fmt.Sprintf("%x", id.Data()))
	}
	if t.Bool() { // something malformed among them
		i := t.Intn(len(ls))
		s := ls[i]
		switch t.Intn(9) {
		case 0:
			s = s[:len(s)-1-t.Intn(63)]
		case 1:
			s += "0"
		case 2:
			s = ""
		case 3:
			s = "0x" + s[2:]
		case 4:
			s = s[:10] + "g" + s[11:]
		case 5:
			s = strings.ToUpper(s)
		case 6:
			s = " " + s[1:]
		case 7:
			s = s[:62] + "é"
		case 8:
			s = strings.Join(ls, ",")
		}
		ls[i] = s
	}
	var out []string
	for _, s := range ls {
		out = append(out, key+"="+url.QueryEscape(s))
	}
	return strings.Join(out, "&")
}

func (w *R) query(p string) string {
	t := w.h.T
	key := ""
	for _, e := range endpoints {
		if e.path == p {
			key = e.key
		}
	}
	if key == "" || t.Draw(8) == 7 {
		key = pbt.Pick(t, endpoints).key
	}
	q := ""
	if key == "maxLen" {
		v := pbt.Pick(t, []string{"", "0", "3", "10", "-1", "1.5", "+5", "007", "18446744073709551615", "18446744073709551616",
			"99999999999999999999999999", "1e3", "0x10", " 3", "3 ", "true", "١", "1_000", "NaN"})
		q = "maxLen=" + url.QueryEscape(v)
		if t.Draw(5) == 4 {
			q += "&maxLen=" + pbt.Pick(t, []string{"1", "x"})
		}
	} else if key != "" {
		q = w.idList(key)
	}
	switch t.Weighted(20, 1, 1, 1, 1, 1, 1, 1) {
	case 1:
		q = ""
	case 2:
		q = strings.ReplaceAll(q, key, strings.ToUpper(key))
	case 3:
		q += "&excludeMempool=" + pbt.Pick(t, []string{"", "1", "yes", "tRuE", "false&excludeMempool=true", "%zz"})
	case 4:
		q = "excludeMempool&" + q
	case 5:
		q = strings.ReplaceAll(q, "&", ";")
	case 6:
		q = mutate(t, q)
	case 7: // very many
		q = strings.Repeat(q+"&", 200)
	}
	// characters a client library would refuse to send
	q = strings.Map(func(r rune) rune {
		if r <= ' ' || r == 0x7f || r == '#' {
			return '.'
		}
		return r
	}, q)
	return q
}

// txJson writes a transaction's documented JSON form.
func txJson(tx core.Tx) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, `{"isCoinbase":%v,"minBlock":%d,"inputs":[`, tx.IsCoinbase, tx.MinBlock)
	for i, in := range tx.Inputs {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, `{"utxo":{"txId":"%x","ind":%d,"value":%d},"publicKey":"%s","signature":"%s"}`,
			in.Utxo.TxId.Data(), in.Utxo.Ind, in.Utxo.Value,
			base64.StdEncoding.EncodeToString(in.PublicKey), base64.StdEncoding.EncodeToString(in.Signature))
	}
	b.WriteString(`],"outputs":[`)
	for i, o := range tx.Outputs {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, `{"value":%d,"publicKeyHash":"%x"}`, o.Value, o.PublicKeyHash.Data())
	}
	b.WriteString("]}")
	return b.Bytes()
}

// an independent reading of that form
type jsonHash struct{ core.HashT }

func (h *jsonHash) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	raw, err := hex.DecodeString(s)
	if err != nil {
		return err
	}
	if len(raw) != 32 {
		return errors.New("length")
	}
	h.HashT = model.T([32]byte(raw))
	return nil
}

type jTx struct {
	IsCoinbase bool
	MinBlock   uint64
	Inputs     []struct {
		Utxo struct {
			TxId       jsonHash
			Ind, Value uint64
		}
		PublicKey, Signature []byte
	}
	Outputs []struct {
		Value         uint64
		PublicKeyHash jsonHash
	}
}

func parseTx(body []byte) (core.Tx, error) {
	var j jTx
	if err := json.Unmarshal(body, &j); err != nil {
		return core.Tx{}, err
	}
	tx := core.Tx{IsCoinbase: j.IsCoinbase, MinBlock: j.MinBlock}
	for _, i := range j.Inputs {
		tx.Inputs = append(tx.Inputs, core.TxIn{Utxo: core.Utxo{TxId: i.Utxo.TxId.HashT, Ind: i.Utxo.Ind, Value: i.Utxo.Value},
			PublicKey: i.PublicKey, Signature: i.Signature})
	}
	for _, o := range j.Outputs {
		tx.Outputs = append(tx.Outputs, core.TxOut{Value: o.Value, PublicKeyHash: o.PublicKeyHash.HashT})
	}
	return tx, nil
}

// body of a posted transaction.
func (w *R) body() []byte {
	t, h := w.h.T, w.h
	var tx core.Tx
	ok := false
	switch t.Weighted(6, 2, 2, 1, 1) {
	case 0:
		tx, _, ok = h.CandidateTx()
	case 1: // known: pending or confirmed
		if len(h.N.W.TxOrder) > 0 {
			tx, ok = h.N.W.Txs[pbt.Pick(t, h.N.W.TxOrder)], true
		}
	case 2: // well-formed but against the rules
		m := &rules.M{T: t, W: h.N.W, Tips: []*model.Block{h.N.Head}}
		tx, _, ok = m.MutTx(h.N.Ledger(), h.N.Head.Height+1, pbt.Pick(t, [][]rules.TxMut{rules.CoinMuts, rules.SpendMuts, rules.AuthMuts, rules.ShapeMuts}))
	case 3:
		tx, ok = gen.Coinbase(h.N.Head.Height+1, h.N.W.P.BlockReward, gen.K(0).Pkh), true
	}
	if !ok {
		tx = core.Tx{MinBlock: t.U64()}
	}
	b := txJson(tx)
	switch t.Weighted(8, 2, 3, 1, 1, 1, 1, 1) {
	case 0:
	case 1:
		b = []byte(mutate(t, string(b)))
	case 2: // replace a token
		var toks []string
		s := string(b)
		for _, x := range []string{`"txId"`, `"ind"`, `"value"`, `"publicKey"`, `"signature"`, `"publicKeyHash"`, `"inputs"`, `"outputs"`, `"minBlock"`, `"isCoinbase"`, `"utxo"`} {
			if strings.Contains(s, x) {
				toks = append(toks, x)
			}
		}
		x := pbt.Pick(t, toks)
		n := t.Intn(strings.Count(s, x))
		i := 0
		for ; ; n-- {
			i += strings.Index(s[i:], x)
			if n == 0 {
				break
			}
			i += len(x)
		}
		// the value following the key
		rest := s[i+len(x)+1:]
		d := json.NewDecoder(strings.NewReader(rest))
		var raw json.RawMessage
		d.Decode(&raw)
		val := string(raw)
		key := x
		switch t.Weighted(4, 1, 1, 1) {
		case 0:
			val = pbt.Pick(t, []string{"null", "0", "-1", "1.0", "1e2", "18446744073709551616", `""`, `"0"`, `"zz"`, "[]", "{}", "true", "[null]", "[[]]", "[{}]",
				`"` + strings.Repeat("0", 63) + `"`, `"` + strings.Repeat("0", 65) + `"`, `"=="`, `"AAA="`, `"ÿ"`})
		case 1:
			key = strings.ToUpper(x)
		case 2:
			key = `"x` + x[1:]
		case 3: // twice
			val = val + "," + x + ":" + pbt.Pick(t, []string{"null", val, "1"})
		}
		b = []byte(s[:i] + key + ":" + val + rest[len(raw):])
	case 3:
		b = t.Bytes(t.Intn(60))
	case 4:
		b = []byte(pbt.Pick(t, []string{"", " ", "null", "[]", "{}", "0", `""`, "true", "{", "}", "{}{}", "\xef\xbb\xbf{}", `{"inputs":null,"outputs":null}`, "nul", `{"a":`}))
	case 5:
		n := pbt.Pick(t, []int{100, 9000, 20000, 300000})
		c := pbt.Pick(t, []string{"[", `{"inputs":`, `{"inputs":[{"utxo":`})
		b = []byte(strings.Repeat(c, n))
	case 6: // large
		n := pbt.Pick(t, []int{1000, 20000})
		b = []byte(`{"outputs":[` + strings.Repeat(`{"value":0,"publicKeyHash":"`+strings.Repeat("00", 32)+`"},`, n) + `{"value":0,"publicKeyHash":"` + strings.Repeat("00", 32) + `"}]}`)
	case 7:
		b = append(b, []byte(pbt.Pick(t, []string{" ", "\n\t", "x", "{}", ",", "\x00"}))...)
	}
	return b
}

func (w *R) draw() request {
	t := w.h.T
	if t.Draw(4) == 3 && w.P.EnableWallet {
		return request{method: "POST", path: "/wallet/tx", body: w.body(), broken: t.Draw(10) == 9 && api.Mounted()}
	}
	q := request{path: w.path(), method: "GET"}
	if _, err := http.NewRequest("GET", "http://node"+q.path, nil); err != nil {
		q.path = "/wallet"
	}
	if q.path == "/admin/terminate" {
		q.method = "POST"
	}
	if t.Draw(4) == 3 {
		q.method = pbt.Pick(t, []string{"POST", "GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "get", "Post", "PURGE"})
	}
	if t.Draw(10) > 0 {
		q.query = w.query(q.path)
	}
	if q.method != "GET" && t.Bool() {
		q.body = w.body()
	}
	q.header = http.Header{}
	switch pw := w.P.Password; t.Weighted(4, 3, 2, 1, 1, 1, 1, 1, 1) {
	case 0:
		q.pw = []string{pw}
	case 1:
	case 2:
		q.pw = []string{mutate(t, pw)}
	case 3:
		q.pw = []string{""}
	case 4:
		q.pw = []string{strings.ToUpper(pw)}
	case 5:
		q.pw = []string{pw + " "}
	case 6:
		if len(pw) > 0 {
			q.pw = []string{pw[:len(pw)-1]}
		}
	case 7:
		q.header["Password"] = []string{pw}
		q.header["Authorization"] = []string{"Bearer " + pw}
		if t.Bool() {
			q.query = "pw=" + url.QueryEscape(pw)
		} else {
			q.query = "Pw=" + url.QueryEscape(pw)
		}
	case 8:
		q.pw = []string{pbt.Pick(t, passwords), pw}
	}
	if !api.Mounted() { // only what can be sent over a connection
		for _, p := range q.pw {
			if p != strings.TrimSpace(p) || strings.ContainsFunc(p, func(r rune) bool { return r < ' ' || r > '~' }) {
				q.pw = nil
				break
			}
		}
	}
	if q.pw != nil {
		q.header["Pw"] = q.pw
	}
	return q
}

func (w *R) send(q request) api.Resp {
	var body io.Reader = bytes.NewReader(q.body)
	if q.broken {
		body = brokenReader{body}
	}
	return w.S.Do(api.Request{Method: q.method, Path: q.path, Query: q.query, Header: q.header, Body: body})
}

// judge an answer; effects are judged by the caller. It returns the transaction
// that the request may have added, and whether a terminate command is due.
func (w *R) judge(q request, r api.Resp) (tx *core.Tx, term bool) {
	t := w.h.T
	bad := func(kind, format string, a ...any) {
		t.Fail("request-"+kind, "%s: %s; answer %s", q, fmt.Sprintf(format, a...), r)
	}
	if r.Status < 200 || r.Status >= 500 {
		bad("status", "the status is not an answer or a client error")
	}
	u, err := url.Parse(w.S.Base + q.path)
	if err != nil {
		t.Discard()
	}
	var e *endpoint
	clean := false
	for i := range endpoints {
		x := &endpoints[i]
		if x.wallet && !w.P.EnableWallet || x.admin && !w.P.EnableAdmin {
			continue
		}
		if x.path == u.Path {
			e = x
		}
		if x.path == path.Clean(u.Path) {
			clean = true
		}
	}
	if e == nil && (clean || u.Path != path.Clean(u.Path)) {
		// a redirection to the clean path, or anything but an effect
		t.Label("unclean path")
		return nil, false
	}
	if e == nil {
		if r.Status != 404 {
			bad("unknown-path", "there is no such enabled endpoint")
		}
		t.Label("unknown path")
		return nil, false
	}
	authorised := true
	if e.admin && w.P.Password != "" {
		authorised = len(q.pw) > 0 && q.pw[0] == w.P.Password
	}
	wrong := true
	for _, m := range strings.Fields(e.method) {
		if m == q.method {
			wrong = false
		}
	}
	if wrong {
		if q.method == "HEAD" || q.method == "OPTIONS" {
			return nil, false
		}
		if r.Status != 405 && !(e.admin && !authorised && r.Status == 401) {
			bad("method", "the method is wrong for %s", e.path)
		}
		t.Label("wrong method")
		return nil, false
	}
	if e.admin {
		if !authorised {
			if r.Status != 401 {
				bad("admin", "the password is %q", w.P.Password)
			}
			t.Label("wrong password")
			return nil, false
		}
		if !r.Ok() {
			bad("admin", "the password is right")
		}
		t.Label("admin")
		return nil, true
	}
	if q.method == "POST" {
		if q.broken {
			if !r.ClientError() {
				bad("post-broken", "the body could not be read")
			}
			return nil, false
		}
		tx, err := parseTx(q.body)
		if err != nil {
			if !r.ClientError() {
				bad("post-malformed", "the body is not a transaction: %v", err)
			}
			t.Label("post malformed")
			return nil, false
		}
		id := model.Tid(tx)
		_, known := w.n.W.Txs[id]
		if tx.IsCoinbase {
			if !known && !r.ClientError() {
				bad("post-coinbase", "posted coinbases are never valid")
			}
			t.Label("post coinbase")
			return nil, false
		}
		if known {
			if !r.Ok() {
				bad("post-known", "the transaction is known and valid")
			}
			t.Label("post known")
		} else if c := w.n.W.CheckTx(tx); c.Maybe {
			t.Discard()
		} else if c.Ok() {
			if !r.Ok() {
				bad("post-refused", "the transaction is valid: %s", rules.TxLine(tx))
			}
			t.Label("post valid")
		} else {
			if !r.ClientError() {
				bad("post-accepted", "the transaction is invalid (%s): %s", c, rules.TxLine(tx))
			}
			t.Label("post invalid")
			return nil, false
		}
		if strings.TrimSpace(string(r.Body)) != fmt.Sprintf("%x", id.Data()) {
			bad("post-id", "the transaction's id is %s", id)
		}
		return &tx, false
	}
	vals := url.Values{}
	for k, v := range mustQuery(q.query) {
		vals[k] = v
	}
	valid := true
	if e.key == "maxLen" {
		if v, ok := vals["maxLen"]; ok {
			_, err := strconv.ParseUint(v[0], 10, 64)
			valid = err == nil
		}
	} else if e.key != "" {
		ids, ok := vals[e.key]
		valid = ok
		for _, s := range ids {
			if b, err := hex.DecodeString(s); err != nil || len(b) != 32 {
				valid = false
			}
		}
		if valid && !r.Ok() && (e.path == "/wallet/tx" || e.path == "/wallet/merkle" || e.path == "/wallet/block") {
			// an error if none is known
			valid = false
			for _, s := range ids {
				b, _ := hex.DecodeString(s)
				id := model.T([32]byte(b))
				_, k1 := w.n.W.Txs[id]
				_, k2 := w.n.W.Merkles[id]
				_, k3 := w.n.W.Blocks[id]
				if id == (core.HashT{}) {
					k3 = false
				}
				if e.key == "txId" && k1 || e.key == "merkleId" && k2 || e.key == "blockId" && k3 {
					valid = true
				}
			}
		}
	}
	if valid && !r.Ok() {
		bad("refused", "the request is well-formed")
	}
	if !valid && !r.ClientError() {
		bad("malformed", "the request is malformed")
	}
	if valid && e.key != "" {
		if !json.Valid(r.Body) {
			bad("json", "the answer is not JSON")
		}
		t.Label("answered " + e.path)
	} else if valid {
		want := w.P.Version
		if e.path != "/version" {
			want = fmt.Sprint(w.n.Head.Height)
		}
		if string(r.Body) != want {
			bad("text", "the answer should be %q", want)
		}
	} else {
		t.Label("malformed")
	}
	return nil, false
}

func mustQuery(s string) url.Values {
	v, _ := url.ParseQuery(s)
	return v
}

func (w *R) terminations(want int, what string) {
	n := 0
	for {
		if _, ok := w.term.Pop(); !ok {
			break
		}
		n++
	}
	if n != want {
		w.h.T.Fail("terminate", "after %s, %d terminate commands were published, should be %d", what, n, want)
	}
}

func (w *R) one() {
	h, t := w.h, w.h.T
	if t.Draw(8) == 7 { // several at once; at most one may add a transaction
		var qs []request
		for n := 2 + t.Intn(4); n > 0; n-- {
			q := w.draw()
			if q.method == "POST" && q.path == "/wallet/tx" && len(qs) > 0 {
				q.method = "PUT"
			}
			// answers that depend on the transaction just posted
			if q.path == "/wallet/tx" && q.method == "GET" {
				q.path = "/wallet/tx/confirms"
			}
			qs = append(qs, q)
		}
		rs := make([]api.Resp, len(qs))
		done := make(chan any, len(qs))
		for i := range qs {
			go func() {
				defer func() { done <- recover() }()
				rs[i] = w.send(qs[i])
			}()
		}
		for range qs {
			if p := <-done; p != nil {
				panic(p)
			}
		}
		terms := 0
		var add *core.Tx
		for i := range qs {
			t.Note("at once: %s", qs[i])
			tx, term := w.judge(qs[i], rs[i])
			if term {
				terms++
			}
			if tx != nil {
				add = tx
			}
		}
		if add != nil {
			h.N.OfferTx(*add)
			h.follow()
		}
		h.D.Settle()
		w.terminations(terms, "several requests at once")
		h.Compare("requests")
		return
	}
	q := w.draw()
	t.Note("%s", q)
	r := w.send(q)
	tx, term := w.judge(q, r)
	if tx != nil {
		h.N.OfferTx(*tx)
		h.follow()
	}
	n := 0
	if term {
		n = 1
	}
	if n > 0 || tx != nil || t.Draw(4) == 3 {
		h.D.Settle()
		w.terminations(n, q.String())
		h.Compare("request")
	}
	if r.ClientError() || tx != nil || term {
		t.NonTrivial()
	}
}

// ArmRequests is the main arm of C25.
func ArmRequests() pbt.Arm {
	quick, chunk := 600, 20
	if !api.Mounted() {
		quick, chunk = 24, 3
	}
	return pbt.Arm{Name: "requests", Rule: "Nodes with drawn server configurations (endpoints enabled, password) over short random histories receive requests from a grammar: " +
		"known and mutated paths, right and wrong methods, well-formed, malformed, missing, repeated and very many query values, right, wrong, prefixed and misplaced passwords, " +
		"posted transactions that are valid, known, invalid, malformed at every token, truncated, nested or large, bodies whose reading fails, one at a time and several at once. " +
		"Each answer is judged by an independent reading of the request; the ledger, the announcements and the terminate commands are compared with the reference afterwards. " +
		"Non-trivial: a client error, an accepted transaction or a terminate command occurred.",
		Quick: quick, Thorough: quick * 20, Chunk: chunk, Bubble: api.Mounted(), Run: func(t *pbt.T) {
			p := rest.Params{EnableWallet: t.Draw(8) != 7, EnableAdmin: t.Draw(3) != 2, Password: pbt.Pick(t, passwords), Version: pbt.Pick(t, []string{"v1", "v0.0.0-dev", "", "x y%s"})}
			t.Note("server %+v", p)
			var r *R
			webRun(t, p, Focus{AvgTx: 1, W: []int{4, 2, 1, 2, 1, 6, 0, 1, 0},
				Own: []string{"balances", "utxos", "pending", "confirms", "inclusion", "richlist", "height", "announced-txs", "adopted", "heads", "candidate-accepted", "supply"}}, false, func(w *Web) {
				if r == nil {
					r = &R{Web: w, P: p, term: w.h.D.Bus.Terminate.Sub()}
				}
				for n := t.Intn(8); n > 0; n-- {
					r.one()
				}
			})
		}}
}

// ArmPort checks that the server serves its configured port.
func ArmPort() pbt.Arm {
	return pbt.Arm{Name: "port", Rule: "The server is started on a drawn free port of the loopback interface and asked over TCP, together with malformed and unfinished HTTP on other " +
		"connections. Every case is non-trivial.",
		Quick: 12, Thorough: 60, Chunk: 1, Workers: 4, Retry: true, Run: func(t *pbt.T) {
			t.NonTrivial()
			http.DefaultServeMux = http.NewServeMux()
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			port := l.Addr().(*net.TCPAddr).Port
			l.Close()
			p := rest.Params{Port: port, EnableAdmin: t.Bool(), Password: "pw", Version: "v-port"}
			b := bus.NewBus()
			term := b.Terminate.SubCh()
			go rest.NewServer(p, b, nil).Start()
			addr := fmt.Sprintf("127.0.0.1:%d", port)
			var c net.Conn
			for i := 0; i < 200; i++ {
				if c, err = net.Dial("tcp", addr); err == nil {
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			if c == nil {
				t.Fail("port", "the server does not listen on port %d: %v", port, err)
			}
			junk := pbt.Pick(t, []string{"", "GET", "GET / HTTP/9.9\r\n\r\n", "\x00\xff\r\n\r\n", "POST /admin/terminate HTTP/1.1\r\nHost: x\r\nPw: pw\r\nContent-Length: -5\r\n\r\n",
				"POST /admin/terminate HTTP/1.1\r\nPw: pw"})
			c.Write([]byte(junk))
			t.Note("a connection sends %q and stays open", junk)
			cl := http.Client{Transport: &http.Transport{}, Timeout: 20 * time.Second}
			r, err := cl.Get("http://" + addr + "/version")
			if err != nil {
				t.Fail("port", "no answer on port %d: %v", port, err)
			}
			body, _ := io.ReadAll(r.Body)
			if r.StatusCode != 200 || string(body) != "v-port" {
				t.Fail("port", "/version answers %d %q", r.StatusCode, body)
			}
			for _, pw := range []string{"pw", "wrong"} {
				q, _ := http.NewRequest("POST", "http://"+addr+"/admin/terminate", nil)
				q.Header.Set("Pw", pw)
				r, err = cl.Do(q)
				if err != nil {
					t.Fail("port", "no answer to an admin request: %v", err)
				}
				r.Body.Close()
				want := 200
				if pw != "pw" {
					want = 401
				}
				if !p.EnableAdmin {
					want = 404
				}
				if r.StatusCode != want {
					t.Fail("port", "an admin request with password %q answers %d, should be %d", pw, r.StatusCode, want)
				}
				got := 0
				dl := time.After(5 * time.Second)
				if want != 200 {
					dl = time.After(100 * time.Millisecond)
				}
				select {
				case <-term.C:
					got = 1
				case <-dl:
				}
				if (got == 1) != (want == 200) {
					t.Fail("port", "an admin request with password %q publishes %d terminate commands", pw, got)
				}
			}
			c.Close()
		}}
}
