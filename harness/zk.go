package main

// A self-made Groth16 setup and stand-in witness programs.  The repository
// downloads its circuits; they are not available offline.  The stand-ins have
// the same inputs and public signals; their proofs are real Groth16 proofs
// over BN254 (the prover and verifier are the ones the repository uses), bound
// to the public signals: nobody can make a proof for other signals.  The
// relation among the private inputs, which the real circuits enforce, is
// recomputed in Go from the inputs the stand-in witness program reports.

import (
	"crypto/sha256"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-circom-prover-verifier/parsers"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	log "github.com/sirupsen/logrus"
)

//go:embed zkstandin/idenstate.wasm
var wasmIdenState []byte

//go:embed zkstandin/credential.wasm
var wasmCredential []byte

const zkNPriv = 28

// zkLevelsIdOwn and zkLevelsIs are the levels of the stand-in circuits.
const (
	zkLevelsIdOwn = 16
	zkLevelsIs    = 40
)

type zkCircuit struct {
	pk   *zktypes.Pk
	vk   *zktypes.Vk
	pkB  []byte
	vkB  []byte
	wasm []byte

	al, be, de *big.Int
	ks         []*big.Int
}

// forge makes a proof for the public signals with the toxic waste: valid, and
// cheaper than the prover.
func (z *zkCircuit) forge(r *rand.Rand, sig ...*big.Int) *zktypes.Proof {
	a, b := new(big.Int).Rand(r, fR), new(big.Int).Rand(r, fR)
	k := new(big.Int).Set(z.ks[0])
	for i, s := range sig {
		k = fadd(k, fmul(z.ks[i+1], s))
	}
	x := fmul(fsub(fsub(fmul(a, b), fmul(z.al, z.be)), k), finv(z.de))
	return &zktypes.Proof{A: g1(a), B: g2(b), C: g1(x)}
}

var fR = zktypes.R

func fmod(x *big.Int) *big.Int    { return new(big.Int).Mod(x, fR) }
func fmul(a, b *big.Int) *big.Int { return fmod(new(big.Int).Mul(a, b)) }
func fadd(a, b *big.Int) *big.Int { return fmod(new(big.Int).Add(a, b)) }
func fsub(a, b *big.Int) *big.Int { return fmod(new(big.Int).Sub(a, b)) }
func finv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(a, fR) }
func fpow(a *big.Int, n int) *big.Int {
	return new(big.Int).Exp(a, big.NewInt(int64(n)), fR)
}
func g1(x *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(x) }
func g2(x *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(x) }

func g1Str(p *bn256.G1) []string {
	b := p.Marshal()
	return []string{new(big.Int).SetBytes(b[:32]).String(), new(big.Int).SetBytes(b[32:]).String(), "1"}
}
func g2Str(p *bn256.G2) [][]string {
	b := p.Marshal()
	s := func(i int) string { return new(big.Int).SetBytes(b[i*32 : i*32+32]).String() }
	return [][]string{{s(1), s(0)}, {s(3), s(2)}, {"1", "0"}}
}

// zkSetup runs the setup for nPub public signals and zkNPriv private ones
// (constraints x*1 = x), from toxic waste derived from seed.
func zkSetup(seed string, nPub int, wasm []byte) *zkCircuit {
	toxic := func(n string) *big.Int {
		a := sha256.Sum256([]byte(seed + n + "a"))
		b := sha256.Sum256([]byte(seed + n + "b"))
		return fmod(new(big.Int).SetBytes(append(a[:], b[:]...)))
	}
	al, be, ga, de, t := toxic("alpha"), toxic("beta"), toxic("gamma"), toxic("delta"), toxic("t")
	nVars := 1 + nPub + zkNPriv
	A := make([]map[int]*big.Int, nVars)
	B := make([]map[int]*big.Int, nVars)
	Cc := make([]map[int]*big.Int, nVars)
	for i := range A {
		A[i], B[i], Cc[i] = map[int]*big.Int{}, map[int]*big.Int{}, map[int]*big.Int{}
	}
	one := big.NewInt(1)
	row := 0
	for i := 1 + nPub; i < nVars; i++ {
		A[i][row], B[0][row], Cc[i][row] = one, one, one
		row++
	}
	for i := 0; i <= nPub; i++ {
		A[i][row] = one
		row++
	}
	m := 1
	bits := 0
	for m < row {
		m *= 2
		bits++
	}
	e := new(big.Int).Sub(fR, one)
	e.Rsh(e, 28)
	w := new(big.Int).Exp(big.NewInt(5), e, fR)
	for i := 28; i > bits; i-- {
		w = fmul(w, w)
	}
	Z := fsub(fpow(t, m), one)
	L := make([]*big.Int, m)
	for j := range L {
		wj := fpow(w, j)
		L[j] = fmul(fmul(wj, Z), finv(fmul(big.NewInt(int64(m)), fsub(t, wj))))
	}
	at := func(m map[int]*big.Int) *big.Int {
		r := new(big.Int)
		for j, v := range m {
			r = fadd(r, fmul(v, L[j]))
		}
		return r
	}
	pk := &zktypes.Pk{NVars: nVars, NPublic: nPub, DomainSize: m, PolsA: A, PolsB: B,
		VkAlpha1: g1(al), VkBeta1: g1(be), VkDelta1: g1(de), VkBeta2: g2(be), VkDelta2: g2(de)}
	vk := &zktypes.Vk{Alpha: g1(al), Beta: g2(be), Gamma: g2(ga), Delta: g2(de)}
	var ics [][]string
	var ks []*big.Int
	for i := 0; i < nVars; i++ {
		a, b, c := at(A[i]), at(B[i]), at(Cc[i])
		pk.A = append(pk.A, g1(a))
		pk.B1 = append(pk.B1, g1(b))
		pk.B2 = append(pk.B2, g2(b))
		k := fadd(fadd(fmul(be, a), fmul(al, b)), c)
		if i <= nPub {
			ks = append(ks, k)
			pk.C = append(pk.C, g1(new(big.Int)))
			ic := g1(fmul(k, finv(ga)))
			vk.IC = append(vk.IC, ic)
			ics = append(ics, g1Str(ic))
		} else {
			pk.C = append(pk.C, g1(fmul(k, finv(de))))
		}
	}
	for j := 0; j <= m; j++ {
		pk.HExps = append(pk.HExps, g1(fmul(fmul(fpow(t, j), Z), finv(de))))
	}
	pkB, err := parsers.PkToGoBin(pk)
	if err != nil {
		panic(err)
	}
	vkB, err := json.Marshal(map[string]interface{}{
		"protocol": "groth", "nPublic": nPub, "IC": ics,
		"vk_alfa_1": g1Str(vk.Alpha), "vk_beta_2": g2Str(vk.Beta),
		"vk_gamma_2": g2Str(vk.Gamma), "vk_delta_2": g2Str(vk.Delta),
	})
	if err != nil {
		panic(err)
	}
	return &zkCircuit{pk: pk, vk: vk, pkB: pkB, vkB: vkB, wasm: wasm, al: al, be: be, de: de, ks: ks}
}

func hexSum(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }

func (z *zkCircuit) hashes() zkutils.ZkFilesHashes {
	return zkutils.ZkFilesHashes{ProvingKey: hexSum(z.pkB), VerificationKey: hexSum(z.vkB), WitnessCalcWASM: hexSum(z.wasm)}
}

// write puts the three artefacts into dir.
func (z *zkCircuit) write(dir string) {
	for n, b := range map[string][]byte{"proving_key.go.bin": z.pkB, "verification_key.json": z.vkB, "circuit.wasm": z.wasm} {
		if err := ioutil.WriteFile(filepath.Join(dir, n), b, 0600); err != nil {
			panic(err)
		}
	}
}

func (z *zkCircuit) files(dir string) *zkutils.ZkFiles {
	return zkutils.NewZkFiles("http://127.0.0.1:1", dir, zkutils.ProvingKeyFormatGoBin, z.hashes(), true)
}

var (
	zkOnce  sync.Once
	zkIS    *zkCircuit // identity state update
	zkCR    *zkCircuit // credential
	zkISDir string
	zkCRDir string
)

// zkInit makes the circuits and puts their files in a scratch directory of
// this process (below the one of the run).
func zkInit(c *C) {
	zkOnce.Do(func() {
		zkIS = zkSetup("idenstate", 3, wasmIdenState)
		zkCR = zkSetup("credential", 2, wasmCredential)
		base := filepath.Join(scratchRoot, fmt.Sprintf("zk-%d", os.Getpid()))
		zkISDir, zkCRDir = filepath.Join(base, "is"), filepath.Join(base, "cr")
		for d, z := range map[string]*zkCircuit{zkISDir: zkIS, zkCRDir: zkCR} {
			if err := os.MkdirAll(d, 0700); err != nil {
				panic(err)
			}
			z.write(d)
		}
		log.AddHook(sigHook{})
		log.SetLevel(log.ErrorLevel)
	})
}

// sigTrace is what one run of a stand-in witness program was given.
type sigTrace map[string][]*big.Int

var (
	sigMu  sync.Mutex
	sigCur = map[string]sigTrace{}   // key -> being filled
	sigAll = map[string][]sigTrace{} // key -> finished runs
)

type sigHook struct{}

func (sigHook) Levels() []log.Level { return []log.Level{log.ErrorLevel} }

const sigPrefix = "WitnessCalculator WASM Error (7): "

func (sigHook) Fire(e *log.Entry) error {
	if !strings.HasPrefix(e.Message, sigPrefix) {
		return nil
	}
	// "<name> <key> != <value> <index>"
	f := strings.Fields(e.Message[len(sigPrefix):])
	sigMu.Lock()
	defer sigMu.Unlock()
	if len(f) == 6 && f[0] == "VSIG" {
		key := f[2]
		switch f[1] {
		case "begin":
			sigCur[key] = sigTrace{}
		case "end":
			sigAll[key] = append(sigAll[key], sigCur[key])
			delete(sigCur, key)
		default:
			sigAll["unknown"] = append(sigAll["unknown"], sigTrace{})
		}
		return nil
	}
	if len(f) == 5 {
		t := sigCur[f[1]]
		if t == nil {
			return nil
		}
		v, _ := new(big.Int).SetString(f[3], 10)
		i, _ := strconv.Atoi(f[4])
		for len(t[f[0]]) <= i {
			t[f[0]] = append(t[f[0]], nil)
		}
		t[f[0]][i] = v
	}
	return nil
}

// sigTake returns and forgets the finished runs of the witness programs with
// the given key (new state for the identity state circuit, issuer state for
// the credential circuit).
func sigTake(key *big.Int) []sigTrace {
	sigMu.Lock()
	defer sigMu.Unlock()
	r := sigAll[key.String()]
	delete(sigAll, key.String())
	return r
}
