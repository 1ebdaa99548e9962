package main

// The issuer's environment: a chain and an off-chain publication model that
// behave like the real services, inject faults, and watch what the issuer
// sends; and a reference model of the issuer.

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"path/filepath"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-circom-prover-verifier/verifier"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

var (
	isConfOnce sync.Once
	isConf     *issuer.IdenStateZkProofConf
)

func zkConf(c *C) *issuer.IdenStateZkProofConf {
	zkInit(c)
	isConfOnce.Do(func() {
		isConf = &issuer.IdenStateZkProofConf{Levels: zkLevelsIdOwn, Files: *zkIS.files(zkISDir)}
	})
	return isConf
}

var cheapKS = keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}

// ---------------------------------------------------------------- chain

type chainTx struct {
	tx      *types.Transaction
	init    bool
	id      core.ID
	genesis h32 // InitState only
	st      h32
	proof   *zktypes.Proof
	mined   bool
	ok      bool
	block   uint64
}

type chainState struct {
	st     h32
	blockN uint64
	ts     int64
}

func (s chainState) data() *proof.IdenStateData {
	return &proof.IdenStateData{BlockTs: s.ts, BlockN: s.blockN, IdenState: hsh(s.st)}
}

type chainModel struct {
	c      *C
	mu     sync.Mutex
	ctl    *faultCtl
	block  uint64
	ts     int64
	hist   map[core.ID][]chainState
	txs    map[common.Hash]*chainTx
	order  []*chainTx
	nonce  uint64
	failTx int // that many of the next transactions will fail
	eager  bool
	onSend func(*chainTx)
	reads  int
}

func newChain(c *C, r *rand.Rand) *chainModel {
	return &chainModel{c: c, block: 100 + uint64(r.Intn(1000)), ts: 1600000000 + int64(r.Intn(1000000)),
		hist: map[core.ID][]chainState{}, txs: map[common.Hash]*chainTx{}, eager: r.Intn(2) == 0}
}

// clone copies the chain, without faults and monitors.
func (m *chainModel) clone() *chainModel {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := &chainModel{c: m.c, block: m.block, ts: m.ts, hist: map[core.ID][]chainState{}, txs: map[common.Hash]*chainTx{}, nonce: m.nonce, eager: m.eager, failTx: m.failTx}
	for k, v := range m.hist {
		n.hist[k] = append([]chainState{}, v...)
	}
	for _, t := range m.order {
		x := *t
		n.txs[t.tx.Hash()] = &x
		n.order = append(n.order, &x)
	}
	return n
}

func (m *chainModel) fault(op string) (faultKind, error) {
	if m.ctl == nil {
		return fkNone, nil
	}
	switch k := m.ctl.hit(op); k {
	case fkError:
		return k, fmt.Errorf("%w (%s)", errInjected, op)
	case fkCrashBefore:
		m.ctl.crash(op)
	default:
		return k, nil
	}
	return fkNone, nil
}

// after applies the faults that happen after the call took effect.
func (m *chainModel) after(k faultKind, op string) error {
	switch k {
	case fkErrorAfter:
		return fmt.Errorf("%w after effect (%s)", errInjected, op)
	case fkCrashAfter:
		m.ctl.crash(op)
	}
	return nil
}

func (m *chainModel) last(id core.ID) (chainState, bool) {
	h := m.hist[id]
	if len(h) == 0 {
		return chainState{}, false
	}
	return h[len(h)-1], true
}

func (m *chainModel) cur(id core.ID) h32 {
	m.mu.Lock()
	defer m.mu.Unlock()
	s, _ := m.last(id)
	return s.st
}

func (m *chainModel) GetState(id *core.ID) (*proof.IdenStateData, error) {
	k, err := m.fault("chain:getstate")
	if err != nil {
		return nil, err
	}
	if err := m.after(k, "chain:getstate"); err != nil {
		return nil, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reads++
	s, ok := m.last(*id)
	if !ok {
		return nil, idenpubonchain.ErrIdenNotOnChain
	}
	return s.data(), nil
}

func (m *chainModel) GetStateByBlock(id *core.ID, blockN uint64) (*proof.IdenStateData, error) {
	if _, err := m.fault("chain:getbyblock"); err != nil {
		return nil, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reads++
	if _, ok := m.hist[*id]; !ok {
		return nil, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew
	}
	for _, s := range m.hist[*id] {
		if s.blockN == blockN {
			return s.data(), nil
		}
	}
	return nil, idenpubonchain.ErrIdenByBlockNotFound
}

func (m *chainModel) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	if _, err := m.fault("chain:getbytime"); err != nil {
		return nil, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reads++
	if _, ok := m.hist[*id]; !ok {
		return nil, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew
	}
	for _, s := range m.hist[*id] {
		if s.ts == ts {
			return s.data(), nil
		}
	}
	return nil, idenpubonchain.ErrIdenByTimeNotFound
}

// flaky is a chain whose reads fail from a given call on, once or for good.
type flaky struct {
	*chainModel
	at    int // -1: never
	all   bool
	err   error
	calls int
	hits  int
}

func newFlaky(m *chainModel) *flaky { return &flaky{chainModel: m, at: -1} }

// arm makes one of the next n reads fail.
func (f *flaky) arm(r *rand.Rand, n int) {
	f.calls, f.hits, f.at, f.all = 0, 0, r.Intn(n), r.Intn(2) == 0
	f.err = []error{errInjected, io.ErrUnexpectedEOF, context.DeadlineExceeded, idenpubonchain.ErrIdenNotOnChain,
		idenpubonchain.ErrIdenByBlockNotFound, idenpubonchain.ErrIdenByTimeNotFound, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew}[r.Intn(7)]
}

func (f *flaky) fails() bool {
	if f.at < 0 { // without writing: it may be used by many goroutines
		return false
	}
	n := f.calls
	f.calls++
	if n < f.at || n > f.at && !f.all {
		return false
	}
	f.hits++
	return true
}

func (f *flaky) GetState(id *core.ID) (*proof.IdenStateData, error) {
	if f.fails() {
		return nil, f.err
	}
	return f.chainModel.GetState(id)
}

func (f *flaky) GetStateByBlock(id *core.ID, blockN uint64) (*proof.IdenStateData, error) {
	if f.fails() {
		return nil, f.err
	}
	return f.chainModel.GetStateByBlock(id, blockN)
}

func (f *flaky) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	if f.fails() {
		return nil, f.err
	}
	return f.chainModel.GetStateByTime(id, ts)
}

// valid says whether the contract accepts t now.
func (m *chainModel) valid(t *chainTx) bool {
	s, ok := m.last(t.id)
	old := s.st
	if t.init {
		if ok {
			return false
		}
		old = t.genesis
	} else if !ok {
		return false
	}
	return zkVerifyState(t.proof, t.id, old, t.st)
}

func zkVerifyState(p *zktypes.Proof, id core.ID, old, new h32) bool {
	if p == nil {
		return false
	}
	return verifier.Verify(zkIS.vk, p, []*big.Int{leBig(id[:]), leBigE(old), leBigE(new)})
}

var errReverted = errors.New("execution reverted")

func (m *chainModel) send(op string, t *chainTx) (*types.Transaction, error) {
	k, err := m.fault(op)
	if err != nil {
		return nil, err
	}
	if m.onSend != nil {
		m.onSend(t)
	}
	m.mu.Lock()
	if m.eager && !m.valid(t) {
		m.mu.Unlock()
		return nil, errReverted
	}
	m.nonce++
	t.tx = types.NewTransaction(m.nonce, common.Address{1}, new(big.Int), 1000000, big.NewInt(1), t.st[:])
	m.txs[t.tx.Hash()] = t
	m.order = append(m.order, t)
	m.mu.Unlock()
	if err := m.after(k, op); err != nil {
		return nil, err
	}
	return t.tx, nil
}

func (m *chainModel) SetState(id *core.ID, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return m.send("chain:setstate", &chainTx{id: *id, st: h32(*newState), proof: p})
}

func (m *chainModel) InitState(id *core.ID, genesisState, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return m.send("chain:initstate", &chainTx{init: true, id: *id, genesis: h32(*genesisState), st: h32(*newState), proof: p})
}

func (m *chainModel) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	k, err := m.fault("chain:txconfirm")
	if err != nil {
		return nil, err
	}
	if err := m.after(k, "chain:txconfirm"); err != nil {
		return nil, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if tx == nil {
		m.c.Fail("confirm-nil-tx", "the issuer asks for the confirmations of no transaction")
	}
	t := m.txs[tx.Hash()]
	if t == nil {
		m.c.Fail("confirm-unknown-tx", "the issuer asks for the confirmations of a transaction the chain never returned (%v)", tx.Hash().Hex())
	}
	if !t.mined {
		return nil, eth.ErrReceiptNotReceived
	}
	if !t.ok {
		return nil, eth.ErrReceiptStatusFailed
	}
	return new(big.Int).SetUint64(m.block - t.block), nil
}

// mine executes the waiting transactions, one block each, and then advances
// the chain by n blocks.
func (m *chainModel) mine(n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, t := range m.order {
		if t.mined {
			continue
		}
		m.block++
		m.ts += 15
		t.mined, t.block = true, m.block
		if m.failTx > 0 {
			m.failTx--
			continue
		}
		if m.valid(t) {
			t.ok = true
			m.hist[t.id] = append(m.hist[t.id], chainState{t.st, m.block, m.ts})
		}
	}
	m.block += uint64(n)
	m.ts += 15 * int64(n)
}

// txOf returns the last transaction for st.
func (m *chainModel) txOf(st h32) *chainTx {
	m.mu.Lock()
	defer m.mu.Unlock()
	for i := len(m.order) - 1; i >= 0; i-- {
		if m.order[i].st == st {
			return m.order[i]
		}
	}
	return nil
}

func (m *chainModel) sent() int { m.mu.Lock(); defer m.mu.Unlock(); return len(m.order) }

// ---------------------------------------------------------------- off chain

// offModel is the off-chain publication service of an identity: the
// repository's publisher on a storage that may fail.
type offModel struct {
	c     *C
	ctl   *faultCtl
	mem   db.Storage
	w     *writerhttp.IdenPubOffChainWriteHttp
	pubs  int
	onPub func(*idenpuboffchain.PublicData)
}

const offURL = "http://off.chain"

func newOff(c *C, cacheLen byte) *offModel {
	o := &offModel{c: c, mem: db.NewMemoryStorage()}
	w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: cacheLen, Url: offURL}, o.mem)
	c.Assert(err == nil, "off-new", "%v", err)
	o.w = w
	return o
}

// reload is what a restarted service does.
func (o *offModel) reload(ctl *faultCtl) {
	var s db.Storage = o.mem
	if ctl != nil {
		fs := newFaultStore(o.mem, ctl)
		fs.name = "off:"
		s = fs
	}
	w, err := writerhttp.LoadIdenPubOffChainWriteHttp(s)
	o.c.Assert(err == nil, "off-load", "the publisher does not load: %v", err)
	o.w, o.ctl = w, ctl
}

func (o *offModel) clone() *offModel {
	n := &offModel{c: o.c, mem: copyStore(o.c, o.mem), pubs: o.pubs}
	n.reload(nil)
	return n
}

func (o *offModel) Url() string { return o.w.Url() }

func (o *offModel) Publish(id *core.ID, pd *idenpuboffchain.PublicData) error {
	k := fkNone
	if o.ctl != nil {
		k = o.ctl.hit("off:publish")
	}
	switch k {
	case fkError:
		return fmt.Errorf("%w (off:publish)", errInjected)
	case fkCrashBefore:
		o.ctl.crash("off:publish")
	}
	if o.onPub != nil {
		o.onPub(pd)
	}
	if err := o.w.Publish(id, pd); err != nil {
		return err
	}
	o.pubs++
	switch k {
	case fkErrorAfter:
		return fmt.Errorf("%w after effect (off:publish)", errInjected)
	case fkCrashAfter:
		o.ctl.crash("off:publish")
	}
	return nil
}

// GetPublicData serves a reader the way the HTTP service does.
func (o *offModel) GetPublicData(url string, id *core.ID, st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
	if url != offURL {
		return nil, fmt.Errorf("no such server %q", url)
	}
	b, err := o.w.GetPublicData(st)
	if err != nil {
		return nil, err
	}
	j, err := json.Marshal(b)
	if err != nil {
		return nil, err
	}
	var b2 idenpuboffchain.PublicDataBlobs
	if err := json.Unmarshal(j, &b2); err != nil {
		return nil, err
	}
	return idenpuboffchain.NewPublicDataFromBlobs(&b2)
}

// ---------------------------------------------------------------- claims

// newClaim makes a claim with a random unique index (unless dup is given: then
// with the index of dup and another value).
func newClaim(r *rand.Rand, kind int) claims.Claimer {
	switch kind % 4 {
	case 0:
		var is [claims.IndexSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		r.Read(is[:])
		fill(r, vs[:])
		return claims.NewClaimBasic(is, vs)
	case 1:
		var is [claims.IndexSubjectSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		r.Read(is[:])
		fill(r, vs[:])
		id := randID(r)
		return claims.NewClaimOtherIden(&id, is, vs)
	case 2:
		var k babyjub.PrivateKey
		r.Read(k[:])
		return claims.NewClaimKeyBabyJub(k.Public(), claims.BabyJubKeyTypeGeneric)
	}
	return genericClaim(r, randMeta(r, r.Intn(1<<10)), [8]byte{9, byte(r.Intn(256)), 7})
}

// genericClaim makes a generic claim of metadata m.
func genericClaim(r *rand.Rand, m rmeta, typ [8]byte) claims.Claimer {
	m.typ = typ
	var d [8]h32
	for i := range d {
		fill(r, d[i][:31])
	}
	r.Read(d[2][:31])
	d[0] = h32{}
	d[4] = h32{}
	if m.subj != 0 && !m.posValue {
		d[1] = h32{}
	}
	if m.subj != 0 && m.posValue {
		d[5] = h32{}
	}
	m.put(&d)
	return claims.NewClaimGeneric(mkRent(d).entry())
}

type issuedClaim struct {
	cl      claims.Claimer
	e       *rent
	nonce   uint32
	revoked bool
}

// ---------------------------------------------------------------- world

// pubRec is a state that was published (or is being published).
type pubRec struct {
	st                  h32
	clr, rer, ror       h32
	claims, revs, roots *refTree
}

type world struct {
	c      *C
	r      *rand.Rand
	mem    db.Storage // what survives a crash
	ctl    *faultCtl
	ks     *keystore.KeyStore
	sk     babyjub.PrivateKey
	kop    *babyjub.PublicKeyComp
	chain  *chainModel
	client idenpubonchain.IdenPubOnChainer // if the issuer reaches the chain through a client
	off    *offModel
	cfg    issuer.Config
	is     *issuer.Issuer
	nkind  int

	// reference model
	id                  core.ID
	claims, revs, roots *refTree
	issued              []*issuedClaim
	genesisRoot         h32
	nonces              map[uint32]bool
	list                []*pubRec
	snaps               map[h32]*refTree // claims by state that may have been published
	onchain             chainState
	pending             h32
	transacted          bool
	ambiguous           bool // a fault may have hidden a call that took effect
}

func newKS(c *C, sk babyjub.PrivateKey) (*keystore.KeyStore, *babyjub.PublicKeyComp) {
	st := keystore.MemStorage([]byte{})
	ks, err := keystore.NewKeyStore(&st, cheapKS)
	c.Must(err, "keystore")
	kop, err := ks.ImportKey(sk, []byte("p"))
	c.Must(err, "import key")
	c.Must(ks.UnlockKey(kop, []byte("p")), "unlock")
	return ks, kop
}

func leafRev(nonce uint32) *rent {
	var d [8]h32
	d[0][0], d[0][1], d[0][2], d[0][3] = byte(nonce), byte(nonce>>8), byte(nonce>>16), byte(nonce>>24)
	d[4][0], d[4][1], d[4][2], d[4][3] = 0xff, 0xff, 0xff, 0xff
	return mkRent(d)
}

func leafRoot(root h32) *rent { return mkRent([8]h32{root}) }

func withNonce(d [8]h32, n uint32) [8]h32 {
	d[4][0], d[4][1], d[4][2], d[4][3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	return d
}

func nonceOf(d [8]h32) uint32 {
	return uint32(d[4][0]) | uint32(d[4][1])<<8 | uint32(d[4][2])<<16 | uint32(d[4][3])<<24
}

// newWorld makes the environment; create() makes the issuer.
func newWorld(c *C, store db.Storage) *world {
	w := &world{c: c, r: c.R, mem: store}
	c.R.Read(w.sk[:])
	w.ks, w.kop = newKS(c, w.sk)
	w.chain = newChain(c, c.R)
	w.off = newOff(c, byte(2+c.R.Intn(4)))
	w.cfg = issuer.ConfigDefault
	w.cfg.ConfirmBlocks = uint64(c.R.Intn(5))
	w.nonces = map[uint32]bool{}
	w.chain.onSend = w.sendMonitor
	return w
}

// sendMonitor judges what the issuer sends to the chain.
func (w *world) sendMonitor(t *chainTx) {
	c := w.c
	c.Assert(t.id == w.id, "sent-id", "the state of another identity is sent: %v", t.id)
	cur, ok := w.chain.last(t.id)
	old := cur.st
	if t.init {
		old = t.genesis
		c.Assert(refStateID(t.genesis) == t.id, "sent-genesis", "InitState with a genesis state that is not the one of the id")
	}
	if w.ambiguous {
		return
	}
	c.Assert(t.init == !ok, "sent-kind", "InitState is sent for an identity on chain, or SetState for one that is not")
	c.Assert(zkVerifyState(t.proof, t.id, old, t.st), "sent-proof", "the proof sent does not verify for the transition from the state on chain %s to %s", short(old), short(t.st))
}

func (w *world) storage() db.Storage {
	if w.ctl == nil {
		return w.mem
	}
	return newFaultStore(w.mem, w.ctl)
}

// create creates and loads the issuer with n extra genesis claims.
func (w *world) create(n int) {
	c := w.c
	extra := make([]claims.Claimer, n)
	pre := make([][8]h32, n)
	for i := range extra {
		extra[i] = newClaim(w.r, w.r.Intn(4))
		pre[i] = rentOf(&extra[i].Entry().Data)
	}
	id, err := issuer.Create(w.cfg, w.kop, extra, w.storage(), w.ks)
	c.Assert(err == nil, "create", "Create: %v", err)
	w.modelCreate(extra, pre)
	c.Assert(*id == w.id, "create-id", "Create returned id %v, the genesis claims give %v", id, w.id)
	w.load()
}

// modelCreate computes the reference model of a created issuer.
func (w *world) modelCreate(extra []claims.Claimer, pre [][8]h32) {
	c := w.c
	w.claims, w.revs, w.roots = newRefTree(w.cfg.MaxLevelsClaimsTree), newRefTree(w.cfg.MaxLevelsRevocationTree), newRefTree(w.cfg.MaxLevelsRootsTree)
	pk, err := w.kop.Decompress()
	c.Must(err, "decompress")
	kc := claims.NewClaimKeyBabyJub(pk, claims.BabyJubKeyTypeAuthorizeKSign)
	w.addIssued(kc, withNonce(rentOf(&kc.Entry().Data), 0))
	for i, e := range extra {
		n := e.Metadata().RevNonce
		got := rentOf(&e.Entry().Data)
		c.Assert(got == withNonce(pre[i], n), "create-claim", "Create changed more than the nonce of a genesis claim")
		w.addIssued(e, got)
	}
	w.genesisRoot = w.claims.root()
	lr := leafRoot(w.genesisRoot)
	w.roots.m[lr.hi] = lr
	r := w.rec()
	w.id = refStateID(r.st)
	w.list = []*pubRec{r}
}

// addIssued records an acknowledged claim.
func (w *world) addIssued(cl claims.Claimer, d [8]h32) *issuedClaim {
	e := mkRent(d)
	n := nonceOf(d)
	w.c.Assert(!w.nonces[n], "nonce-reused", "revocation nonce %d was given to two claims", n)
	w.nonces[n] = true
	w.claims.m[e.hi] = e
	ic := &issuedClaim{cl: cl, e: e, nonce: n}
	w.issued = append(w.issued, ic)
	return ic
}

// rec is the record of the current state.
func (w *world) rec() *pubRec {
	r := &pubRec{claims: w.claims.clone(), revs: w.revs.clone(), roots: w.roots.clone()}
	r.clr, r.rer, r.ror = r.claims.root(), r.revs.root(), r.roots.root()
	r.st = refState(r.clr, r.rer, r.ror)
	return r
}

func (w *world) load() {
	is, err := w.tryLoad()
	w.c.Assert(err == nil, "load", "Load: %v", err)
	w.is = is
	w.modelSync()
	w.check("load")
}

func (w *world) tryLoad() (*issuer.Issuer, error) {
	if w.cfg.GenesisOnly {
		return issuer.Load(w.storage(), w.ks, nil, nil, nil)
	}
	if w.client != nil {
		return issuer.Load(w.storage(), w.ks, w.client, zkConf(w.c), w.off)
	}
	return issuer.Load(w.storage(), w.ks, w.chain, zkConf(w.c), w.off)
}

// modelSync is what synchronising does to the model; false: it must fail.
func (w *world) modelSync() bool {
	if w.cfg.GenesisOnly {
		return true
	}
	m := w.chain
	m.mu.Lock()
	defer m.mu.Unlock()
	if w.pending != (h32{}) && w.transacted {
		var t *chainTx
		for _, x := range m.order {
			if x.st == w.pending && x.id == w.id {
				t = x
			}
		}
		if t == nil || !t.mined {
			return true
		}
		if !t.ok {
			w.transacted = false
		} else if m.block-t.block < w.cfg.ConfirmBlocks {
			return true
		}
	}
	cur, _ := m.last(w.id)
	if w.pending == (h32{}) {
		return cur.st == w.onchain.st
	}
	if cur.st == w.onchain.st {
		return true
	}
	if cur.st == w.pending {
		w.onchain, w.pending, w.transacted = cur, h32{}, false
		return true
	}
	return false
}

// check compares the issuer with the model.
func (w *world) check(why string) {
	c := w.c
	r := w.rec()
	st, roots := w.is.State()
	c.Assert(h32(*roots.ClaimsTreeRoot) == r.clr, "claims-root", "after %s the claims root is %s instead of %s", why, short(h32(*roots.ClaimsTreeRoot)), short(r.clr))
	c.Assert(h32(*roots.RevocationsTreeRoot) == r.rer, "revs-root", "after %s the revocations root is %s instead of %s", why, short(h32(*roots.RevocationsTreeRoot)), short(r.rer))
	c.Assert(h32(*roots.RootsTreeRoot) == r.ror, "roots-root", "after %s the roots root is %s instead of %s", why, short(h32(*roots.RootsTreeRoot)), short(r.ror))
	c.Assert(h32(*st) == r.st, "state", "after %s the state is %s instead of %s", why, short(h32(*st)), short(r.st))
	c.Assert(*w.is.ID() == w.id, "id", "after %s the id is %v instead of %v", why, w.is.ID(), w.id)
	c.Assert(*w.is.KeyOperational() == *w.kop, "kop", "after %s the operational key changed", why)
	oc := w.is.StateDataOnChain()
	c.Assert(h32(*oc.IdenState) == w.onchain.st && oc.BlockN == w.onchain.blockN && oc.BlockTs == w.onchain.ts, "on-chain", "after %s the state known on chain is %s (block %d, time %d) instead of %s (%d, %d)", why, short(h32(*oc.IdenState)), oc.BlockN, oc.BlockTs, short(w.onchain.st), w.onchain.blockN, w.onchain.ts)
	c.Assert(h32(*w.is.IdenStateOnChain()) == w.onchain.st, "on-chain", "after %s IdenStateOnChain is %s instead of %s", why, short(h32(*w.is.IdenStateOnChain())), short(w.onchain.st))
	p, tr := w.is.IdenStatePending()
	c.Assert(h32(*p) == w.pending && tr == w.transacted, "pending", "after %s the pending state is %s (transacted %v) instead of %s (%v)", why, short(h32(*p)), tr, short(w.pending), w.transacted)
}

// issue issues a claim that must be accepted.
func (w *world) issue() *issuedClaim {
	w.nkind++
	return w.issueClaim(newClaim(w.r, w.nkind))
}

func (w *world) issueClaim(cl claims.Claimer) *issuedClaim {
	c := w.c
	pre := rentOf(&cl.Entry().Data)
	err := w.is.IssueClaim(cl)
	c.Assert(err == nil, "issue", "IssueClaim: %v", err)
	n := cl.Metadata().RevNonce
	got := rentOf(&cl.Entry().Data)
	c.Assert(got == withNonce(pre, n), "issue-claim", "IssueClaim changed more than the nonce of the claim")
	w.c.Logf("issue nonce %d", n)
	return w.addIssued(cl, got)
}

func (w *world) revoke(ic *issuedClaim) {
	// a claim is known by its index: the application may have filled in
	// another value and nonce
	cl := merkletree.Entrier(ic.cl)
	if w.r.Intn(3) == 0 {
		d := ic.e.d
		for i := 4; i < 8; i++ {
			w.r.Read(d[i][:31])
			if w.r.Intn(2) == 0 {
				d[i] = ic.e.d[i]
			}
		}
		if w.r.Intn(2) == 0 && len(w.issued) > 0 {
			binary.LittleEndian.PutUint32(d[4][:], w.issued[w.r.Intn(len(w.issued))].nonce)
		}
		cl = entrier{mkRent(d).entry()}
		w.c.Count("revoked_by_index", 1)
	}
	err := w.is.RevokeClaim(cl)
	w.c.Logf("revoke nonce %d (again: %v): %v", ic.nonce, ic.revoked, err)
	if ic.revoked {
		w.c.Assert(errors.Is(err, merkletree.ErrEntryIndexAlreadyExists), "revoke-twice", "revoking a revoked claim: %v", err)
		return
	}
	w.c.Assert(err == nil, "revoke", "RevokeClaim: %v", err)
	w.markRevoked(ic)
}

func (w *world) markRevoked(ic *issuedClaim) {
	ic.revoked = true
	l := leafRev(ic.nonce)
	w.revs.m[l.hi] = l
}

// modelPublish is what publishing does to the model; it returns the expected
// error, and the transition to be sent (nil: nothing).
func (w *world) modelPublish() (err error, from, to *pubRec) {
	if w.pending != (h32{}) && w.transacted {
		return issuer.ErrIdenStatePendingNotNil, nil, nil
	}
	last := w.list[len(w.list)-1]
	if w.pending == (h32{}) {
		r := w.rec()
		if r.st == last.st {
			return nil, nil, nil
		}
		if r.clr != last.clr {
			l := leafRoot(r.clr)
			w.roots.m[l.hi] = l
			r = w.rec()
		}
		w.list = append(w.list, r)
		from, to = last, r
	} else {
		from, to = w.list[len(w.list)-2], last
	}
	w.pending, w.transacted = to.st, true
	return nil, from, to
}

// publish calls PublishState without faults and judges everything it did.
func (w *world) publish() *pubRec {
	c := w.c
	sent, pubs := w.chain.sent(), w.off.pubs
	wantErr, from, to := w.modelPublish()
	err := w.is.PublishState()
	c.Logf("publish: %v", err)
	if wantErr != nil {
		c.Assert(errors.Is(err, wantErr), "publish-pending", "PublishState: %v instead of %v", err, wantErr)
	} else {
		c.Assert(err == nil, "publish", "PublishState: %v", err)
	}
	if to == nil {
		c.Assert(w.chain.sent() == sent && w.off.pubs == pubs, "publish-noop", "a publication that has nothing to do sent something")
		w.check("publish of nothing")
		return nil
	}
	c.Assert(w.chain.sent() == sent+1 && w.off.pubs == pubs+1, "publish-count", "a publication made %d transactions and %d off chain publications", w.chain.sent()-sent, w.off.pubs-pubs)
	t := w.chain.order[sent]
	c.Assert(t.st == to.st, "publish-state", "the state %s is sent instead of %s", short(t.st), short(to.st))
	c.Assert(zkVerifyState(t.proof, w.id, from.st, to.st), "publish-proof", "the proof sent is not the one of the transition %s to %s", short(from.st), short(to.st))
	w.checkOff(to)
	w.check("publish")
	return to
}

// checkOff compares the off-chain data of a published state with the model.
func (w *world) checkOff(r *pubRec) {
	c := w.c
	pd, err := w.off.GetPublicData(offURL, &w.id, hsh(r.st))
	c.Assert(err == nil, "off-read", "the public data of %s: %v", short(r.st), err)
	c.Assert(h32(*pd.IdenState) == r.st && h32(*pd.ClaimsTreeRoot) == r.clr && h32(*pd.RevocationsTreeRoot) == r.rer && h32(*pd.RootsTreeRoot) == r.ror,
		"off-roots", "the public data of %s has other roots", short(r.st))
	sameTree(c, pd.RevocationsTree, r.revs, nil, "published revocations tree")
	sameTree(c, pd.RootsTree, r.roots, nil, "published roots tree")
	pd, err = w.off.GetPublicData(offURL, &w.id, nil)
	c.Assert(err == nil && pd != nil, "off-last", "the last public data: %v", err)
	if r == w.list[len(w.list)-1] {
		c.Assert(h32(*pd.IdenState) == r.st, "off-last", "the last public data is of %s instead of %s", short(h32(*pd.IdenState)), short(r.st))
	}
}

func (w *world) sync() {
	ok := w.modelSync()
	err := w.is.SyncIdenStatePublic()
	w.c.Logf("sync: %v", err)
	w.c.Assert(ok == (err == nil), "sync", "SyncIdenStatePublic: %v, expected success: %v", err, ok)
	w.check("sync")
}

// settle publishes the current state and confirms it.
func (w *world) settle() *pubRec {
	for i := 0; i < 6; i++ {
		w.publish()
		w.chain.mine(int(w.cfg.ConfirmBlocks))
		w.sync()
		if w.rec().st == w.onchain.st {
			return w.list[len(w.list)-1]
		}
		if len(w.list) == 1 && w.rec().st == w.list[0].st {
			return nil
		}
	}
	w.c.Fail("settle", "six rounds of publish and sync did not bring the state on chain")
	return nil
}

func worldStore(c *C, n int) db.Storage {
	if n%4 == 3 {
		s, err := db.NewLevelDbStorage(filepath.Join(c.Dir(), "issuer"), false)
		c.Must(err, "leveldb")
		return s
	}
	return db.NewMemoryStorage()
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func sameDump(a, b string) bool { return a == b }
