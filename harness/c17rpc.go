package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/accounts"
	ethkeystore "github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rlp"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/eth"
)

// rpcNode is an Ethereum node with the state contract, over JSON-RPC; its
// records are those of a chainModel.
type rpcNode struct {
	m       *chainModel
	addr    common.Address
	from    common.Address
	mu      sync.Mutex
	nonce   uint64
	behind  uint64 // the node that answers has not seen so many of the last blocks
	revert  bool   // queries about the future revert (otherwise: the contract's zero answer)
	fault   func(method string) string
	calls   map[string]int
	problem string // something the client must not do
	byHash  map[common.Hash]*chainTx
}

func sel(sig string) string { return string(crypto.Keccak256([]byte(sig))[:4]) }

var (
	selByID    = sel("getStateDataById(uint256)")
	selByBlock = sel("getStateDataByBlock(uint256,uint64)")
	selByTime  = sel("getStateDataByTime(uint256,uint64)")
	selInit    = sel("initState(uint256,uint256,uint256,uint256[2],uint256[2][2],uint256[2])")
	selSet     = sel("setState(uint256,uint256,uint256[2],uint256[2][2],uint256[2])")
)

func word(v *big.Int) []byte { return common.LeftPadBytes(v.Bytes(), 32) }

func wordsOf(b []byte) []*big.Int {
	var o []*big.Int
	for len(b) >= 32 {
		o = append(o, new(big.Int).SetBytes(b[:32]))
		b = b[32:]
	}
	return o
}

func idOfWord(v *big.Int) (id core.ID, ok bool) {
	h := bigLE(v)
	copy(id[:], h[:31])
	return id, h[31] == 0
}

func (n *rpcNode) bad(f string, a ...interface{}) {
	if n.problem == "" {
		n.problem = fmt.Sprintf(f, a...)
	}
}

var errRevert = errors.New("execution reverted")

func (n *rpcNode) call(to string, data []byte) ([]byte, error) {
	if !strings.EqualFold(to, n.addr.Hex()) {
		return nil, nil // no contract there
	}
	w := wordsOf(data[4:])
	m := n.m
	m.mu.Lock()
	defer m.mu.Unlock()
	id, ok := idOfWord(w[0])
	var h []chainState
	if ok {
		h = m.hist[id]
	}
	var s chainState
	switch string(data[:4]) {
	case selByID:
		if len(h) > 0 {
			s = h[len(h)-1]
		}
	case selByBlock:
		if w[1].Cmp(new(big.Int).SetUint64(m.block)) > 0 {
			if n.revert {
				return nil, errRevert
			}
			break
		}
		for _, x := range h {
			if x.blockN <= w[1].Uint64() {
				s = x
			}
		}
	case selByTime:
		if w[1].Cmp(big.NewInt(m.ts)) > 0 {
			if n.revert {
				return nil, errRevert
			}
			break
		}
		for _, x := range h {
			if uint64(x.ts) <= w[1].Uint64() {
				s = x
			}
		}
	default:
		return nil, errRevert
	}
	out := append(word(new(big.Int).SetUint64(s.blockN)), word(big.NewInt(s.ts))...)
	return append(out, word(leBigE(s.st))...), nil
}

func (n *rpcNode) send(raw []byte) (common.Hash, error) {
	tx := new(types.Transaction)
	if err := rlp.DecodeBytes(raw, tx); err != nil {
		return common.Hash{}, err
	}
	from, err := types.Sender(types.HomesteadSigner{}, tx)
	if err != nil {
		return common.Hash{}, err
	}
	if from != n.from || tx.To() == nil || *tx.To() != n.addr || tx.Value().Sign() != 0 {
		n.bad("a transaction from %v to %v of %v", from.Hex(), tx.To(), tx.Value())
		return common.Hash{}, errors.New("unexpected transaction")
	}
	if tx.Nonce() != n.nonce {
		return common.Hash{}, errors.New("nonce")
	}
	d := tx.Data()
	if len(d) < 4 {
		n.bad("a transaction without data")
		return common.Hash{}, errRevert
	}
	w := wordsOf(d[4:])
	t := &chainTx{tx: tx}
	switch string(d[:4]) {
	case selInit:
		if len(w) != 11 {
			return common.Hash{}, errRevert
		}
		t.init, t.genesis = true, bigLE(w[1])
		t.id, _ = idOfWord(w[2])
		w = append([]*big.Int{w[0], w[2]}, w[3:]...)
	case selSet:
		if len(w) != 10 {
			return common.Hash{}, errRevert
		}
		t.id, _ = idOfWord(w[1])
	default:
		n.bad("a call of another method")
		return common.Hash{}, errRevert
	}
	t.st = bigLE(w[0])
	// the points, as the pairing precompile of the chain decodes them
	g := func(ws []*big.Int) (b []byte) {
		for _, x := range ws {
			b = append(b, word(x)...)
		}
		return b
	}
	p := &zktypes.Proof{A: new(bn256.G1), B: new(bn256.G2), C: new(bn256.G1)}
	_, e1 := p.A.Unmarshal(g(w[2:4]))
	_, e2 := p.B.Unmarshal(g(w[4:8]))
	_, e3 := p.C.Unmarshal(g(w[8:10]))
	if e1 == nil && e2 == nil && e3 == nil {
		t.proof = p
	}
	n.nonce++
	n.byHash[tx.Hash()] = t
	n.m.mu.Lock()
	n.m.order = append(n.m.order, t)
	n.m.txs[tx.Hash()] = t
	n.m.mu.Unlock()
	return tx.Hash(), nil
}

func (n *rpcNode) answer(method string, params []json.RawMessage) (interface{}, error) {
	str := func(i int) string {
		var s string
		if i < len(params) {
			_ = json.Unmarshal(params[i], &s)
		}
		return s
	}
	switch method {
	case "eth_call":
		var a struct {
			To, Data, Input string
		}
		_ = json.Unmarshal(params[0], &a)
		d, err := hex.DecodeString(strings.TrimPrefix(a.Data+a.Input, "0x"))
		if err != nil || len(d) < 36 {
			return nil, errRevert
		}
		o, err := n.call(a.To, d)
		return "0x" + hex.EncodeToString(o), err
	case "eth_getCode":
		return "0x01", nil
	case "eth_gasPrice":
		return "0x3b9aca00", nil
	case "eth_getTransactionCount":
		return fmt.Sprintf("0x%x", n.nonce), nil
	case "eth_getBalance":
		return "0x1234", nil
	case "eth_sendRawTransaction":
		raw, err := hex.DecodeString(strings.TrimPrefix(str(0), "0x"))
		if err != nil {
			return nil, err
		}
		h, err := n.send(raw)
		return h.Hex(), err
	case "eth_getTransactionReceipt":
		t := n.byHash[common.HexToHash(str(0))]
		n.m.mu.Lock()
		defer n.m.mu.Unlock()
		if t == nil || !t.mined {
			return nil, nil
		}
		r := &types.Receipt{Status: types.ReceiptStatusFailed, TxHash: t.tx.Hash(), GasUsed: 1, CumulativeGasUsed: 1, Logs: []*types.Log{}, BlockNumber: new(big.Int).SetUint64(t.block)}
		if t.ok {
			r.Status = types.ReceiptStatusSuccessful
		}
		return r, nil
	case "eth_getBlockByNumber":
		n.m.mu.Lock()
		defer n.m.mu.Unlock()
		return &types.Header{Number: new(big.Int).SetUint64(n.m.block - n.behind), Difficulty: new(big.Int), Time: uint64(n.m.ts), Extra: []byte{}}, nil
	}
	return nil, errors.New("no such method " + method)
}

func (n *rpcNode) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	var req struct {
		ID     json.RawMessage   `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	b, _ := ioutil.ReadAll(q.Body)
	if json.Unmarshal(b, &req) != nil {
		rw.WriteHeader(400)
		return
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	n.calls[req.Method]++
	rw.Header().Set("Content-Type", "application/json")
	f := ""
	if n.fault != nil {
		f = n.fault(req.Method)
	}
	out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
	switch f {
	case "http":
		rw.WriteHeader(500)
		return
	case "error":
		out["error"] = map[string]interface{}{"code": -32000, "message": "injected"}
	case "garbage":
		_, _ = rw.Write([]byte(`{"jsonrpc":"2.0","id":`))
		return
	case "null":
		out["result"] = nil
	case "wrong":
		out["result"] = []int{1}
	default:
		r, err := n.answer(req.Method, req.Params)
		switch {
		case f == "error-after":
			out["error"] = map[string]interface{}{"code": -32000, "message": "injected after effect"}
		case err != nil:
			out["error"] = map[string]interface{}{"code": 3, "message": err.Error()}
		case f == "short":
			s, _ := r.(string)
			if len(s) > 66 {
				s = s[:66]
			}
			out["result"] = s
		case f == "empty":
			out["result"] = "0x"
		default:
			out["result"] = r
		}
	}
	_ = json.NewEncoder(rw).Encode(out)
}

// newNode starts a node for m and returns it with a client of it.
func newNode(c *C, m *chainModel) (*rpcNode, *idenpubonchain.IdenPubOnChain, *eth.Client, func()) {
	n := &rpcNode{m: m, revert: c.R.Intn(2) == 0, calls: map[string]int{}, byHash: map[common.Hash]*chainTx{}}
	c.R.Read(n.addr[:])
	ks := ethkeystore.NewKeyStore(filepath.Join(c.Dir(), fmt.Sprintf("eth%d", c.R.Int63())), 2, 1)
	acc, err := ks.NewAccount("p")
	c.Must(err, "account")
	c.Must(ks.Unlock(acc, "p"), "unlock")
	n.from = acc.Address
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	c.Must(err, "listen")
	srv := &httptest.Server{Listener: ln, Config: &http.Server{Handler: n}}
	srv.Start()
	ec, err := ethclient.Dial(srv.URL)
	c.Must(err, "dial")
	cl := eth.NewClient(ec, &accounts.Account{Address: acc.Address, URL: acc.URL}, ks)
	return n, idenpubonchain.New(cl, idenpubonchain.ContractAddresses{IdenStates: n.addr}), cl, func() { ec.Close(); srv.Close() }
}

func c17client(c *C) {
	if c.N%6 == 5 {
		c17issuer(c)
		return
	}
	zkInit(c)
	m := newChain(c, c.R)
	m.eager = false
	n, ip, cl, stop := newNode(c, m)
	defer stop()
	ids := make([]core.ID, 3)
	for i := range ids {
		ids[i] = randID(c.R)
	}
	last := map[core.ID]h32{} // according to what was sent
	notErr := func(err error, d *proof.IdenStateData, sig, f string, a ...interface{}) {
		c.Assert(err != nil, sig, "%s, but %s is returned", fmt.Sprintf(f, a...), js(d))
	}
	check := func() {
		for _, id := range ids {
			id := id
			h := m.hist[id]
			d, err := ip.GetState(&id)
			if len(h) == 0 {
				c.Assert(errors.Is(err, idenpubonchain.ErrIdenNotOnChain), "client-unknown", "the state of an identity that has none: %s %v", js(d), err)
			} else {
				c.Assert(err == nil && isData(d, h[len(h)-1]), "client-current", "the current state is %s (error %v) instead of %s at block %d, time %d", js(d), err, short(h[len(h)-1].st), h[len(h)-1].blockN, h[len(h)-1].ts)
			}
			bs, ts := map[uint64]bool{m.block: true, m.block + 1: true, 0: true, math.MaxUint64: true}, map[int64]bool{m.ts: true, m.ts + 1: true, 0: true, -1: true, math.MaxInt64: true, math.MinInt64: true}
			for _, s := range h {
				for o := -1; o <= 1; o++ {
					bs[s.blockN+uint64(o)], ts[s.ts+int64(o)] = true, true
				}
			}
			at := func(f func(chainState) bool) (chainState, bool) {
				for i := len(h) - 1; i >= 0; i-- {
					if f(h[i]) {
						return h[i], true
					}
				}
				return chainState{}, false
			}
			var bl []uint64
			for b := range bs {
				bl = append(bl, b)
			}
			sort.Slice(bl, func(i, j int) bool { return bl[i] < bl[j] })
			for _, b := range bl {
				d, err := ip.GetStateByBlock(&id, b)
				w, in := at(func(s chainState) bool { return s.blockN == b })
				cw, cin := at(func(s chainState) bool { return s.blockN <= b })
				switch {
				case in:
					c.Assert(err == nil && isData(d, w), "client-by-block", "the state at block %d is %s (error %v) instead of %s", b, js(d), err, short(w.st))
				case b > m.block:
					notErr(err, d, "client-future-block", "block %d is in the future", b)
				case !cin:
					c.Assert(errors.Is(err, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew), "client-before-first", "the state at block %d, before the first: %s %v", b, js(d), err)
				default:
					c.Assert(errors.Is(err, idenpubonchain.ErrIdenByBlockNotFound), "client-no-block", "the state at block %d, which has none: %s %v", b, js(d), err)
				}
				d, err = ip.GetStateClosestToBlock(&id, b)
				switch {
				case b > m.block:
					notErr(err, d, "client-future-block", "block %d is in the future", b)
				case cin:
					c.Assert(err == nil && isData(d, cw), "client-closest-block", "the state before block %d is %s (error %v) instead of %s", b, js(d), err, short(cw.st))
				default:
					c.Assert(errors.Is(err, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew), "client-closest-first", "the state before block %d, before the first: %s %v", b, js(d), err)
				}
				c.Count("queries", 2)
			}
			var tl []int64
			for t := range ts {
				tl = append(tl, t)
			}
			sort.Slice(tl, func(i, j int) bool { return tl[i] < tl[j] })
			for _, t := range tl {
				d, err := ip.GetStateByTime(&id, t)
				w, in := at(func(s chainState) bool { return s.ts == t })
				cw, cin := at(func(s chainState) bool { return s.ts <= t })
				switch {
				case in:
					c.Assert(err == nil && isData(d, w), "client-by-time", "the state at time %d is %s (error %v) instead of %s", t, js(d), err, short(w.st))
				case t > m.ts || t < 0:
					notErr(err, d, "client-future-time", "time %d has no state", t)
				case !cin:
					c.Assert(errors.Is(err, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew), "client-before-first", "the state at time %d, before the first: %s %v", t, js(d), err)
				default:
					c.Assert(errors.Is(err, idenpubonchain.ErrIdenByTimeNotFound), "client-no-time", "the state at time %d, which has none: %s %v", t, js(d), err)
				}
				d, err = ip.GetStateClosestToTime(&id, t)
				switch {
				case t > m.ts || t < 0:
					notErr(err, d, "client-future-time", "time %d has no state before it", t)
				case cin:
					c.Assert(err == nil && isData(d, cw), "client-closest-time", "the state before time %d is %s (error %v) instead of %s", t, js(d), err, short(cw.st))
				default:
					c.Assert(errors.Is(err, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew), "client-closest-first", "the state before time %d, before the first: %s %v", t, js(d), err)
				}
				c.Count("queries", 2)
			}
		}
	}
	// the client gives up after a second, which a busy machine can take
	confirmBlocks := func(tx *types.Transaction) (x *big.Int, err error) {
		for i := 0; i < 5; i++ {
			t := time.Now()
			if x, err = ip.TxConfirmBlocks(tx); err == nil || time.Since(t) < 900*time.Millisecond {
				break
			}
		}
		return x, err
	}
	confirms := func(t *chainTx) {
		x, err := confirmBlocks(t.tx)
		switch {
		case !t.mined:
			c.Assert(errors.Is(err, eth.ErrReceiptNotReceived), "client-pending", "the confirmations of a pending transaction: %v %v", x, err)
			c.Count("pending_tx", 1)
		case !t.ok:
			c.Assert(errors.Is(err, eth.ErrReceiptStatusFailed), "client-failed", "the confirmations of a failed transaction: %v %v", x, err)
			c.Count("failed_tx", 1)
		default:
			c.Assert(err == nil && x.Cmp(new(big.Int).SetUint64(m.block-t.block)) == 0, "client-confirm", "%v confirmations (error %v) instead of %d", x, err, m.block-t.block)
			c.Count("confirmed", 1)
			// another node, which does not have the block of the receipt
			n.mu.Lock()
			n.behind = m.block - t.block + 1 + uint64(c.R.Intn(3))
			if n.behind > m.block {
				n.behind = m.block
			}
			n.mu.Unlock()
			x, err = ip.TxConfirmBlocks(t.tx)
			n.mu.Lock()
			n.behind = 0
			n.mu.Unlock()
			c.Assert(err != nil || x.Sign() <= 0, "client-confirm-behind", "%v confirmations by a node that does not have the block of the transaction", x)
			c.Count("nodes_behind", 1)
		}
	}
	var h []string
	for k := 0; k < 12; k++ {
		id := ids[c.R.Intn(3)]
		cur := m.cur(id)
		init := cur == (h32{})
		if c.R.Intn(6) == 0 {
			init = !init
		}
		old, st := cur, bigLE(new(big.Int).Rand(c.R, fR))
		if init {
			old = bigLE(new(big.Int).Rand(c.R, fR))
		}
		p := zkIS.forge(c.R, leBig(id[:]), leBigE(old), leBigE(st))
		if c.R.Intn(5) == 0 {
			if q, _ := badProof(c, id, old, st, ids[0]); q != nil && q.A != nil && q.B != nil && q.C != nil {
				p = q
			}
		}
		if c.R.Intn(8) == 0 {
			m.failTx = 1
		}
		sent := m.sent()
		f, fm := "", ""
		if c.R.Intn(4) == 0 {
			f = []string{"http", "error", "garbage", "null", "wrong", "error-after"}[c.R.Intn(6)]
			fm = []string{"eth_gasPrice", "eth_getTransactionCount", "eth_sendRawTransaction"}[c.R.Intn(3)]
			n.fault = func(m string) string {
				if m == fm {
					return f
				}
				return ""
			}
		}
		var tx *types.Transaction
		var err error
		if init {
			tx, err = ip.InitState(&id, hsh(old), hsh(st), p)
		} else {
			tx, err = ip.SetState(&id, hsh(st), p)
		}
		n.fault = nil
		h = append(h, fmt.Sprintf("%v %s %s", init, f, fm))
		c.Assert(n.problem == "", "client-sent", "the client sends %s", n.problem)
		if f != "" {
			c.Count("rpc_faults", 1)
			if !(err == nil && (f == "null" || f == "wrong" && fm == "eth_sendRawTransaction")) {
				c.Assert(err != nil, "client-fault-hidden", "a failing %s (%s) is not reported", fm, f)
			}
			if err != nil && tx == nil {
				continue
			}
		}
		if f == "" {
			c.Assert(err == nil && tx != nil && m.sent() == sent+1, "client-send", "sending a transaction: %v", err)
		}
		if m.sent() == sent+1 {
			t := m.order[sent]
			c.Count("sent", 1)
			c.Assert(tx == nil || tx.Hash() == t.tx.Hash(), "client-tx", "another transaction than the one sent is returned")
			c.Assert(t.init == init && t.id == id && t.st == st && (!init || t.genesis == old), "client-args", "other arguments are sent")
			c.Assert(t.proof != nil && string(t.proof.A.Marshal())+string(t.proof.B.Marshal())+string(t.proof.C.Marshal()) == string(p.A.Marshal())+string(p.B.Marshal())+string(p.C.Marshal()),
				"client-proof", "the proof that reaches the contract is not the one given")
			confirms(t)
			// a transaction survives storage
			b, err := json.Marshal(t.tx)
			c.Must(err, "tx json")
			t2 := new(types.Transaction)
			c.Must(json.Unmarshal(b, t2), "tx json")
			if c.R.Intn(3) > 0 {
				m.mine(c.R.Intn(3))
				confirms(t)
				x, err := confirmBlocks(t2)
				c.Assert((err == nil) == t.ok, "client-stored-tx", "the confirmations of a transaction that was stored: %v %v", x, err)
			}
			last[id] = st
		}
		if k%4 == 3 {
			m.mine(c.R.Intn(3))
			for _, t := range m.order {
				confirms(t)
			}
			check()
		}
	}
	m.mine(1)
	check()
	// failing answers are never taken for a state or a confirmation
	var on []core.ID
	for _, id := range ids {
		if len(m.hist[id]) > 0 {
			on = append(on, id)
		}
	}
	for _, f := range []string{"http", "error", "garbage", "null", "wrong", "short", "empty"} {
		n.fault = func(m string) string {
			if m == "eth_call" || (m == "eth_getBlockByNumber" && f != "short" && f != "empty") {
				return f
			}
			return ""
		}
		for _, id := range on {
			id := id
			s := m.hist[id][0]
			for i, q := range []func() (*proof.IdenStateData, error){
				func() (*proof.IdenStateData, error) { return ip.GetState(&id) },
				func() (*proof.IdenStateData, error) { return ip.GetStateByBlock(&id, s.blockN) },
				func() (*proof.IdenStateData, error) { return ip.GetStateByTime(&id, s.ts) },
				func() (*proof.IdenStateData, error) { return ip.GetStateClosestToBlock(&id, s.blockN) },
				func() (*proof.IdenStateData, error) { return ip.GetStateClosestToTime(&id, s.ts) },
			} {
				d, err := q()
				notErr(err, d, "client-bad-answer", "query %d got a failing answer (%s)", i, f)
				c.Assert(!errors.Is(err, idenpubonchain.ErrIdenNotOnChain), "client-fault-absent", "a failing answer (%s) is reported as an identity that is not on chain", f)
				c.Count("rpc_faults", 1)
			}
		}
		for _, t := range m.order {
			if t.mined && t.ok && f != "short" && f != "empty" {
				x, err := ip.TxConfirmBlocks(t.tx)
				c.Assert(err != nil, "client-bad-confirm", "%v confirmations from a failing answer (%s)", x, f)
				c.Count("rpc_faults", 1)
			}
		}
		n.fault = func(m string) string {
			if m == "eth_getTransactionReceipt" && f != "short" && f != "empty" {
				return f
			}
			return ""
		}
		if len(m.order) > 0 && f != "short" && f != "empty" {
			x, err := ip.TxConfirmBlocks(m.order[0].tx)
			c.Assert(err != nil, "client-bad-receipt", "%v confirmations without a receipt (%s)", x, f)
		}
		n.fault = nil
	}
	// waiting for a receipt
	if c.N%6 == 0 && len(m.order) > 0 {
		t := m.order[0]
		polls := 0
		n.fault = func(mm string) string {
			if mm == "eth_getTransactionReceipt" {
				if polls++; polls < 3 {
					return "null"
				}
			}
			return ""
		}
		cl.ReceiptTimeout = 5 * time.Second
		r, err := cl.WaitReceipt(t.tx)
		c.Assert(polls >= 3 && (err == nil) == t.ok && (!t.ok || r.BlockNumber.Uint64() == t.block), "client-wait", "WaitReceipt: %v after %d polls", err, polls)
		n.fault = func(mm string) string { return "null" }
		cl.ReceiptTimeout = 300 * time.Millisecond
		_, err = cl.WaitReceipt(t.tx)
		c.Assert(errors.Is(err, eth.ErrReceiptNotReceived), "client-wait-timeout", "WaitReceipt without a receipt: %v", err)
		n.fault = nil
	}
	c.Assert(n.problem == "", "client-sent", "the client sends %s", n.problem)
	c.Distinct("%v", h)
	// without an account nothing is sent
	na := idenpubonchain.New(eth.NewClient(nil, nil, nil), idenpubonchain.ContractAddresses{IdenStates: n.addr})
	_, err := na.SetState(&ids[0], hsh(h32{1}), zkIS.forge(c.R, leBig(ids[0][:]), new(big.Int), leBigE(h32{1})))
	c.Assert(errors.Is(err, eth.ErrAccountNil), "client-no-account", "sending without an account: %v", err)
}

// c17issuer runs an issuer on the chain client.
func c17issuer(c *C) {
	w := newWorld(c, db.NewMemoryStorage())
	w.chain.onSend = nil
	w.chain.eager = false
	n, ip, _, stop := newNode(c, w.chain)
	defer stop()
	w.client = ip
	w.create(c.R.Intn(2))
	for i := 0; i < 4; i++ {
		w.issue()
		if c.R.Intn(2) == 0 {
			w.revoke(w.issued[c.R.Intn(len(w.issued))])
		}
		w.publish()
		if c.R.Intn(2) == 0 {
			w.sync()
		}
		if c.R.Intn(4) == 0 {
			w.chain.failTx = 1
		}
		w.chain.mine(c.R.Intn(5))
		if c.R.Intn(3) == 0 {
			w.load()
		} else {
			w.sync()
		}
		c.Count("issuer_rounds", 1)
	}
	w.settle()
	c.Assert(n.problem == "", "client-sent", "the client sends %s", n.problem)
	c.Distinct("issuer %d", c.N)
}
