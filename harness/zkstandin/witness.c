// Stand-in witness program: the same exports as a program compiled by circom.
// It keeps every input it is given, reports each of them through the imported
// runtime.error (so that the monitor sees exactly what the caller passed to
// the circuit) and returns [1, public signals..., NPRIV first private inputs].
//
// Compile with -DCRED for the credential circuit, without for the identity
// state update circuit (see build.sh).
typedef unsigned int u32;
typedef unsigned long long u64;

__attribute__((import_module("runtime"), import_name("error")))
void rt_error(u32 code, const char *pstr, u32 a, const void *b, const void *c, const char *d);

#define EXPORT(n) __attribute__((export_name(n)))
#define NSIG 512
#define NPRIV 28

typedef struct { const char *name; u32 len; } sig;
static const sig sigs[] = {
#ifdef CRED
#define NPUB 2
	{"isIdenState", 1}, {"challenge", 1},
	{"hoKOpSk", 1}, {"hoClaimKOpClaimsTreeRoot", 1},
	{"isProofExistClaimsTreeRoot", 1}, {"isProofValidRevTreeRoot", 1},
	{"isProofValidNotRevMtpNoAux", 1}, {"isProofValidNotRevMtpAuxHi", 1}, {"isProofValidNotRevMtpAuxHv", 1},
	{"isProofValidClaimsTreeRoot", 1}, {"isProofValidRootsTreeRoot", 1},
	{"hoClaimKOpMtp", 64}, {"isProofExistMtp", 64}, {"isProofValidNotRevMtp", 64}, {"isProofRootMtp", 64},
	{"claim", 8},
#else
#define NPUB 3
	{"id", 1}, {"oldIdState", 1}, {"newIdState", 1},
	{"userPrivateKey", 1}, {"claimsTreeRoot", 1}, {"siblings", 64}, {"unused", 64},
#endif
};
#define NNAMES (sizeof(sigs) / sizeof(sigs[0]))

static const unsigned char prime[32] = {
	0x01, 0x00, 0x00, 0xf0, 0x93, 0xf5, 0xe1, 0x43, 0x91, 0x70, 0xb9, 0x79, 0x48, 0xe8, 0x33, 0x28,
	0x5d, 0x58, 0x81, 0x81, 0xb6, 0x45, 0x50, 0xb8, 0x29, 0xa0, 0x31, 0xe1, 0x72, 0x4e, 0x64, 0x30,
};
static unsigned char val[NSIG][40];
static unsigned char set[NSIG];
static unsigned char one[40];
static char num[8];
static unsigned char heap[4096];

static u64 fnv(const char *s) {
	u64 h = 14695981039346656037ULL;
	for (; *s; s++) { h ^= (unsigned char)*s; h *= 1099511628211ULL; }
	return h;
}

static void start(void) { *(volatile u32 *)4 = 0; *(volatile u32 *)(u32)(set[0] & 0) = (u32)heap; }

EXPORT("getFrLen") u32 getFrLen(void) { start(); return 40; }
EXPORT("getPRawPrime") u32 getPRawPrime(void) { return (u32)prime; }
EXPORT("getNVars") u32 getNVars(void) { return 1 + NPUB + NPRIV; }
EXPORT("init") void init(u32 sanity) {
	for (u32 i = 0; i < NSIG; i++) set[i] = 0;
	one[0] = 1;
}

EXPORT("getSignalOffset32") void getSignalOffset32(u32 pR, u32 component, u32 hMSB, u32 hLSB) {
	u64 h = ((u64)hMSB << 32) | hLSB;
	u32 off = 0;
	for (u32 i = 0; i < NNAMES; i++) {
		if (fnv(sigs[i].name) == h) { *(u32 *)pR = off; return; }
		off += sigs[i].len;
	}
	rt_error(7, "VSIG unknown-signal", 0, one, one, "0");
	*(u32 *)pR = NSIG;
}

EXPORT("setSignal") void setSignal(u32 cIdx, u32 component, u32 s, u32 pVal) {
	if (s >= NSIG) return;
	for (u32 i = 0; i < 40; i++) val[s][i] = ((unsigned char *)pVal)[i];
	set[s]++;
}

static u32 offOf(u32 n) { u32 off = 0; for (u32 i = 0; i < n; i++) off += sigs[i].len; return off; }

static void report(void) {
#ifdef CRED
	unsigned char *key = val[0];
#else
	unsigned char *key = val[2];
#endif
	rt_error(7, "VSIG begin", 0, key, one, "0");
	for (u32 i = 0; i < NNAMES; i++) {
		u32 o = offOf(i);
		for (u32 j = 0; j < sigs[i].len; j++) {
			if (!set[o + j]) continue;
			char *p = num; u32 v = j;
			*p++ = '0' + v / 10; *p++ = '0' + v % 10; *p++ = 0;
			rt_error(7, sigs[i].name, 0, key, val[o + j], num);
		}
	}
	rt_error(7, "VSIG end", 0, key, one, "0");
}

EXPORT("getPWitness") u32 getPWitness(u32 i) {
	if (i == 0) { report(); return (u32)one; }
	return (u32)val[i - 1];
}
EXPORT("getWitnessBuffer") u32 getWitnessBuffer(void) { return (u32)heap; }
