package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/accounts"
	ethkeystore "github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/eth/contracts"
)

func init() {
	reg(Part{Prop: "C17", Name: "deploy", Quick: 48, Thorough: 1500, Need: []string{"deployed", "given_verifier", "deploy_faults", "deploy_failed_tx", "deploy_pending", "deploy_retried", "balances"}, Run: c17deploy})
}

type creation struct {
	tx   *types.Transaction
	addr common.Address
	ok   bool
	late int // polls without a receipt
}

// deployNode is an Ethereum node on which contracts are created.
type deployNode struct {
	from    common.Address
	nonce   uint64
	made    []*creation
	price   *big.Int
	balance *big.Int
	block   uint64
	fail    int // the transaction that fails (from 1)
	late    int // receipts take so many polls
	never   int // the transaction without a receipt (from 1)
	calls   int
	at      int // the call that is answered with the fault (from 1)
	kind    string
	hit     string // the method it was
	problem string
}

func (n *deployNode) answer(method string, params []json.RawMessage) (interface{}, error) {
	var s string
	if len(params) > 0 {
		_ = json.Unmarshal(params[0], &s)
	}
	switch method {
	case "eth_gasPrice":
		return "0x" + n.price.Text(16), nil
	case "eth_getTransactionCount":
		return fmt.Sprintf("0x%x", n.nonce), nil
	case "eth_getBalance":
		if !strings.EqualFold(s, n.from.Hex()) {
			return "0x0", nil
		}
		return "0x" + n.balance.Text(16), nil
	case "eth_sendRawTransaction":
		raw, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
		if err != nil {
			return nil, err
		}
		tx := new(types.Transaction)
		if err := rlp.DecodeBytes(raw, tx); err != nil {
			return nil, err
		}
		from, err := types.Sender(types.HomesteadSigner{}, tx)
		if err != nil || from != n.from || tx.To() != nil || tx.Value().Sign() != 0 || tx.Nonce() != n.nonce {
			n.problem = fmt.Sprintf("a transaction from %v to %v of %v, nonce %d instead of %d", from.Hex(), tx.To(), tx.Value(), tx.Nonce(), n.nonce)
			return nil, errors.New("unexpected transaction")
		}
		n.nonce++
		n.made = append(n.made, &creation{tx: tx, addr: crypto.CreateAddress(from, tx.Nonce()), ok: len(n.made)+1 != n.fail, late: n.late})
		return tx.Hash().Hex(), nil
	case "eth_getTransactionReceipt":
		for i, t := range n.made {
			if t.tx.Hash() != common.HexToHash(s) {
				continue
			}
			if t.late--; t.late >= 0 || i+1 == n.never {
				return nil, nil
			}
			r := &types.Receipt{Status: types.ReceiptStatusFailed, TxHash: t.tx.Hash(), ContractAddress: t.addr, GasUsed: 1, CumulativeGasUsed: 1, Logs: []*types.Log{}, BlockNumber: new(big.Int).SetUint64(n.block + uint64(i))}
			if t.ok {
				r.Status = types.ReceiptStatusSuccessful
			}
			return r, nil
		}
		return nil, nil
	case "eth_getBlockByNumber":
		return &types.Header{Number: new(big.Int).SetUint64(n.block), Difficulty: new(big.Int), Extra: []byte{}}, nil
	}
	return nil, errors.New("no such method " + method)
}

func (n *deployNode) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	var req struct {
		ID     json.RawMessage   `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	if json.NewDecoder(q.Body).Decode(&req) != nil {
		rw.WriteHeader(400)
		return
	}
	rw.Header().Set("Content-Type", "application/json")
	out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
	n.calls++
	kind := ""
	if n.calls == n.at {
		kind, n.hit = n.kind, req.Method
	}
	if kind == "http" {
		rw.WriteHeader(503)
		return
	}
	if kind == "error" {
		out["error"] = map[string]interface{}{"code": -32000, "message": "injected"}
	} else if r, err := n.answer(req.Method, req.Params); err != nil {
		out["error"] = map[string]interface{}{"code": -32000, "message": err.Error()}
	} else if kind == "error-after" {
		out["error"] = map[string]interface{}{"code": -32000, "message": "injected after effect"}
	} else {
		out["result"] = r
	}
	_ = json.NewEncoder(rw).Encode(out)
}

// c17deploy deploys the contracts through the client, with failing calls and
// transactions: success means that everything was created as reported.
func c17deploy(c *C) {
	ks := ethkeystore.NewKeyStore(filepath.Join(c.Dir(), "eth"), 2, 1)
	acc, err := ks.NewAccount("p")
	c.Must(err, "account")
	c.Must(ks.Unlock(acc, "p"), "unlock")
	code := func(s string) []byte {
		b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
		c.Must(err, "code")
		return b
	}
	verifierCode, stateCode := code(contracts.VerifierBin), code(contracts.StateBin)

	// one run; returns the number of calls of the node
	run := func(given *common.Address, at int, kind string, fail, never, late int) int {
		n := &deployNode{from: acc.Address, nonce: uint64(c.R.Intn(300)), block: 1 + uint64(c.R.Intn(1000)), at: at, kind: kind, fail: fail, never: never, late: late,
			price: new(big.Int).SetUint64(1 + c.R.Uint64()>>uint(20+c.R.Intn(40))), balance: new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), 100))}
		if c.R.Intn(8) == 0 {
			n.nonce = 0
		}
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		c.Must(err, "listen")
		srv := &httptest.Server{Listener: ln, Config: &http.Server{Handler: n}}
		srv.Start()
		defer srv.Close()
		ec, err := ethclient.Dial(srv.URL)
		c.Must(err, "dial")
		defer ec.Close()
		cl := eth.NewClient(ec, &accounts.Account{Address: acc.Address, URL: acc.URL}, ks)
		cl.ReceiptTimeout = 100 * time.Millisecond
		if late > 0 {
			cl.ReceiptTimeout = 20 * time.Second
		}
		what := fmt.Sprintf("given %v, call %d %s, failing %d, never %d, late %d", given != nil, at, kind, fail, never, late)
		var deps *idenpubonchain.StateDepsAddresses
		if given != nil {
			deps = &idenpubonchain.StateDepsAddresses{Verifier: given}
		} else if c.R.Intn(2) == 0 {
			deps = &idenpubonchain.StateDepsAddresses{}
		}
		res, err := idenpubonchain.DeployState(cl, deps)
		what += fmt.Sprintf(" (%s): ", n.hit)
		c.Assert(n.problem == "", "deploy-sent", "%s the client sends %s", what, n.problem)

		// what was created is what had to be
		made := n.made
		verifier := common.Address{}
		if given != nil {
			verifier = *given
			c.Assert(res.Verifier.Address == *given && res.Verifier.Tx == nil && res.Verifier.Receipt == nil, "deploy-given", "%s the verifier given is reported as %v", what, res.Verifier)
		} else if len(made) > 0 {
			verifier = made[0].addr
			c.Assert(string(made[0].tx.Data()) == string(verifierCode), "deploy-code", "%s the first contract is not the verifier", what)
			if len(made) > 1 {
				c.Assert(made[0].ok && never != 1, "deploy-went-on", "%s the state contract is deployed although its verifier failed", what)
			}
			if err == nil || res.Verifier.Receipt != nil {
				c.Assert(res.Verifier.Address == verifier && res.Verifier.Tx != nil && res.Verifier.Tx.Hash() == made[0].tx.Hash(), "deploy-verifier", "%s the verifier is reported as %v", what, res.Verifier)
			}
			made = made[1:]
		}
		c.Assert(len(made) <= 1, "deploy-count", "%s %d contracts created", what, len(n.made))
		for _, t := range made {
			c.Assert(string(t.tx.Data()) == string(stateCode)+string(common.LeftPadBytes(verifier[:], 32)), "deploy-code", "%s the second contract is not the state contract on the verifier %v", what, verifier.Hex())
		}
		for _, t := range n.made {
			inc := new(big.Int).Sub(t.tx.GasPrice(), n.price)
			c.Assert(inc.Sign() >= 0 && inc.Cmp(n.price) <= 0, "deploy-price", "%s the price %v offered for a suggested one of %v", what, t.tx.GasPrice(), n.price)
		}
		if err == nil {
			c.Assert(len(made) == 1 && made[0].ok, "deploy-success", "%s success without the state contract", what)
			c.Assert(res.State.Address == made[0].addr && res.State.Tx != nil && res.State.Tx.Hash() == made[0].tx.Hash(), "deploy-state", "%s the state contract is reported as %v", what, res.State)
			check := func(d eth.ContractData, t *creation) {
				c.Assert(d.Receipt != nil && d.Receipt.Status == types.ReceiptStatusSuccessful && d.Receipt.TxHash == t.tx.Hash() && d.Receipt.ContractAddress == t.addr, "deploy-receipt", "%s the receipt is %v", what, d.Receipt)
			}
			check(res.State, made[0])
			if given == nil {
				check(res.Verifier, n.made[0])
			} else {
				c.Count("given_verifier", 1)
			}
			c.Count("deployed", 1)
		}
		want := fail == 0 && never == 0 && n.hit == ""
		switch {
		case want:
			c.Assert(err == nil, "deploy-refused", "%s the deployment fails: %v", what, err)
		case fail > 0 && n.hit == "":
			c.Assert(errors.Is(err, eth.ErrReceiptStatusFailed) || err != nil && strings.Contains(err.Error(), eth.ErrReceiptStatusFailed.Error()), "deploy-failed-hidden", "%s a failed transaction is reported as %v", what, err)
			c.Count("deploy_failed_tx", 1)
		case never > 0 && n.hit == "":
			c.Assert(err != nil && strings.Contains(err.Error(), eth.ErrReceiptNotReceived.Error()), "deploy-pending-hidden", "%s a transaction without receipt is reported as %v", what, err)
			c.Count("deploy_pending", 1)
		case n.hit == "eth_getTransactionReceipt":
			c.Count("deploy_retried", 1) // polling again is fine
		default:
			c.Assert(err != nil, "deploy-fault-hidden", "%s no error is reported", what)
			c.Count("deploy_faults", 1)
		}
		calls := n.calls
		// the balance
		n.at = 0
		b, err := cl.BalanceAt(acc.Address)
		c.Assert(err == nil && b.Cmp(n.balance) == 0, "balance", "a balance of %v is reported as %v (error %v)", n.balance, b, err)
		b, err = cl.BalanceAt(common.Address{1})
		c.Assert(err == nil && b.Sign() == 0, "balance", "the balance of another account: %v %v", b, err)
		bn, err := cl.CurrentBlock()
		for i := 0; i < 5 && errors.Is(err, context.DeadlineExceeded); i++ { // its limit is a second
			bn, err = cl.CurrentBlock()
		}
		c.Assert(err == nil && bn.Cmp(new(big.Int).SetUint64(n.block)) == 0, "current-block", "block %d is reported as %v (error %v)", n.block, bn, err)
		n.at, n.kind = n.calls+1, "error"
		_, err = cl.BalanceAt(acc.Address)
		c.Assert(err != nil, "balance-fault", "a balance that can not be read is reported without error")
		c.Count("balances", 1)
		c.Distinct("%s", what)
		return calls
	}
	var given *common.Address
	if c.N%2 == 1 {
		given = new(common.Address)
		c.R.Read(given[:])
	}
	calls := run(given, 0, "", 0, 0, 0)
	txs := 2
	if given != nil {
		txs = 1
	}
	for i := 1; i <= calls; i++ {
		run(given, i, []string{"http", "error", "error-after"}[c.R.Intn(3)], 0, 0, 0)
	}
	run(given, 0, "", 1+c.R.Intn(txs), 0, 0)
	run(given, 0, "", 0, 1+c.R.Intn(txs), 0)
	if c.N%8 < 2 {
		run(given, 0, "", 0, 0, 1)
	}
	_, err = idenpubonchain.DeployState(eth.NewClient(nil, nil, nil), nil)
	c.Assert(err != nil, "deploy-no-account", "deployed without an account")
}
