"""Units (sets of proof obligations) of every property."""
TRUSTED = ["CBMC 6.11.0 (goto-cc, goto-instrument --dfcc, cbmc) and its C semantics for x86-64 LP64",
           "the compiler that builds the shipped binaries"]
PROPS = {}
FALLBACK = {}
CRYPTO_NATIVE = ["libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aesctr.c",
    "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_verify_bytes.c",
    "libcperciva/crypto/crypto_dh.c", "libcperciva/crypto/crypto_dh_group14.c",
    "libcperciva/util/insecure_memzero.c", "libcperciva/util/warnp.c"]

def unit(name, src=None, **k):
    return dict(k, name=name, src=src)

PKT = dict(mode="driver", src="packet.c", extra=CRYPTO_NATIVE, libs=["-lcrypto"], secs=60)
PROPS["P01"] = dict(
    note="Every obligation of the contract of proto_crypt_enc is discharged for all messages; the AES-CTR, HMAC and key-derivation contracts it relies on are discharged in the units named in the evidence.",
    units=[unit("enc", "packet.c", defs=["-DU_ENC"], enforce=["proto_crypt_enc/c_enc"], unwind=40,
                functions=["proto_crypt_enc"], native=PKT)],
    assumptions=["fewer than 2^64 packets per key (documented user requirement)"],
    trusted=["contracts of crypto_aesctr_buf and HMAC_SHA256_* assumed here are proved under P03, P06"])
PROPS["P02"] = dict(
    note="Every obligation of the contract of proto_crypt_dec is discharged for all packets.",
    units=[unit("dec", "packet.c", defs=["-DU_DEC"], enforce=["proto_crypt_dec/c_dec"], unwind=40,
                functions=["proto_crypt_dec", "crypto_verify_bytes"], native=PKT)])

# --- SHA-256, HMAC, PBKDF2
SHANAT = dict(mode="driver", src="sha.c", extra=["libcperciva/util/insecure_memzero.c", "libcperciva/util/warnp.c"], libs=["-lcrypto"], secs=120)
FS = ["--max-field-sensitivity-array-size", "128"]
XF = dict(src="sha_xform.c", unwind=74, cbmc=FS, native=SHANAT, unwind_retry=False)
SHA_XFORM = [
    unit("sha_portable", defs=[], solver="z3", timeout=300, functions=["SHA256_Transform", "SHA256_Update", "SHA256_Init"], **XF),
    unit("sha_sse2_rounds", defs=["-DU_SSE2"], solver="z3", timeout=500, functions=["SHA256_Transform_sse2"], **XF),
    unit("sha_sse2_schedule", **dict(XF, defs=["-DU_SSE2", "-DPART_SCHED"], solver="cadical", timeout=500,
         cbmc=FS + ["--slice-formula"], functions=["SHA256_Transform_sse2"])),
    unit("sha_shani", defs=["-DU_SHANI"], solver="cadical", timeout=500, functions=["SHA256_Transform_shani"], **XF)]
def stream(name, fns, defs, k, **kw):
    return unit(name, "sha_stream.c", defs=defs, unwind=110, unwind_retry=False, solver="cadical", timeout=600,
                cbmc=FS, unwindset=["SHA256_Update_internal.0:%d" % k], functions=fns, native=SHANAT, **kw)
SHA_STREAM = [
    stream("sha_update", ["SHA256_Init", "SHA256_Update"], ["-DU_UPDATE", "-DF_SHANI", "-DMAXLEN=1100"], 19,
           bound="pieces of at most 1100 bytes per call (any number of calls, any total length)"),
    stream("sha_update_8192", ["SHA256_Update"], ["-DU_UPDATE", "-DF_SHANI", "-DMAXLEN=8192"], 130, thorough=True,
           bound="pieces of at most 8192 bytes per call, the largest spiped uses"),
    stream("sha_update_sse2", ["SHA256_Init", "SHA256_Update"], ["-DU_UPDATE", "-DMAXLEN=140"], 4, bound="pieces of at most 140 bytes per call"),
    stream("sha_final", ["SHA256_Init", "SHA256_Final"], ["-DU_FINAL", "-DF_SHANI"], 4),
    stream("sha_final_sse2", ["SHA256_Init", "SHA256_Final"], ["-DU_FINAL"], 4),
    stream("sha_buf", ["SHA256_Buf"], ["-DU_BUF", "-DF_SHANI", "-DMAXLEN=200"], 5, bound="messages of at most 200 bytes")]
def hm(name, kn, mn, *defs, fns=("HMAC_SHA256_Init", "HMAC_SHA256_Update", "HMAC_SHA256_Final"), **kw):
    return unit(name, "hmac.c", defs=["-DKN=%d" % kn, "-DMN=%d" % mn, *defs], unwind=450, unwind_retry=False,
                cbmc=["--max-field-sensitivity-array-size", "1024"], functions=list(fns), native=SHANAT, timeout=400,
                bound="key %d bytes, message or salt %d bytes; every content" % (kn, mn), **kw)
HB, PB = ("HMAC_SHA256_Buf",), ("PBKDF2_SHA256",)
HMAC = [
    stream("hmac_update", ["HMAC_SHA256_Update"], ["-DU_UPDATE", "-DU_HMAC", "-DF_SHANI", "-DMAXLEN=200"], 5,
           bound="pieces of at most 200 bytes per call (HMAC_SHA256_Update is SHA256_Update of the inner context)"),
    hm("hmac_32", 32, 72, "-DSPLIT=30"), hm("hmac_64", 64, 120, "-DSPLIT=64"), hm("hmac_65", 65, 7, "-DSPLIT=7"),
    hm("hmac_0", 0, 0, "-DSPLIT=0"), hm("hmac_150", 150, 55, "-DSPLIT=1"), hm("hmac_63", 63, 56, "-DSPLIT=0"),
    hm("hmacbuf_32", 32, 256, "-DU_HBUF", fns=HB), hm("hmacbuf_64", 64, 65, "-DU_HBUF", fns=HB),
    hm("hmacbuf_100", 100, 33, "-DU_HBUF", fns=HB), hm("hmacbuf_33", 32, 33, "-DU_HBUF", fns=HB)]
PBKDF2 = [
    hm("pbkdf2_dhmac", 32, 64, "-DU_PBKDF2", "-DCN=1", "-DON=64", fns=PB),
    hm("pbkdf2_session", 32, 320, "-DU_PBKDF2", "-DCN=1", "-DON=128", fns=PB),
    hm("pbkdf2_iter", 9, 5, "-DU_PBKDF2", "-DCN=3", "-DON=45", fns=PB),
    hm("pbkdf2_one", 64, 64, "-DU_PBKDF2", "-DCN=2", "-DON=1", fns=PB)]
PROPS["P05"] = dict(units=SHA_XFORM + SHA_STREAM,
    note="Compression functions proved equal to FIPS 180-4 (z3/CaDiCaL); streaming proved inductively from an arbitrary state for the piece sizes stated in the evidence; x86 intrinsics are given C semantics validated against the CPU.",
    assumptions=["messages shorter than 2^61 bytes", "intrinsics behave as the C semantics in lib/intrin (validated by tools/test_intrin.sh)",
                 "sha256_arm.c is not built on this platform and not examined"])
PROPS["P06"] = dict(units=HMAC + PBKDF2,
    note="HMAC and PBKDF2 proved equal to RFC 2104/8018 over an uninterpreted compression function, for every content, at the lengths spiped uses and around every block boundary; other lengths are explored on failure only.",
    assumptions=["key, salt and output lengths are those listed per unit; messages fed piecewise have any length (unit hmac_update)"])


# --- AES, AES-CTR
AESNAT = dict(mode="driver", src="aes.c", parts=["aes_ctr.c", "aes_ctrni.c"], extra=["libcperciva/util/insecure_memzero.c", "libcperciva/util/warnp.c"],
              libs=["-lcrypto"], secs=120)
SELF = dict(mode="self", secs=15)
def ctr(name, defs, ni, buf, **kw):
    return unit(name, "aesctr.c", defs=defs + (["-DU_NI", "-DVC_HW"] if ni else []), unwind=70 if buf else 18, unwind_retry=False, timeout=500,
                extra=["libcperciva/crypto/crypto_aesctr_aesni.c"] if ni else [], native=AESNAT,
                **dict(dict(solver=None if buf else "cadical", cbmc=["--max-field-sensitivity-array-size", "2000"] if "-DLEN=1028" in defs else ["--slice-formula"],
                functions=["crypto_aesctr_buf" if buf else "crypto_aesctr_stream", "crypto_aesctr_init2"] + (["crypto_aesctr_aesni_stream"] if ni else [])), **kw))
B36 = "pieces of at most 36 bytes per call (any number of calls, any total length)"
AESCTR = []
for ni in (0, 1):
    s = "_aesni" if ni else ""
    AESCTR += [ctr("ctr_stream" + s, ["-DMAXLEN=36"], ni, 0, bound=B36),
               ctr("ctr_stream_inplace" + s, ["-DMAXLEN=36", "-DINPLACE"], ni, 0, bound=B36),
               ctr("ctr_buf1028" + s, ["-DU_BUF", "-DLEN=1028", "-DMAXLEN=1030"], ni, 1, bound="1028 bytes (the packet length), not in place"),
               ctr("ctr_buf1028_inplace" + s, ["-DU_BUF", "-DLEN=1028", "-DMAXLEN=1030", "-DINPLACE"], ni, 1, bound="1028 bytes, in place"),
               ctr("ctr_buf80" + s, ["-DU_BUF", "-DMAXLEN=80"], ni, 1, bound="every length up to 80 bytes", thorough=True)]
PROPS["P03"] = dict(units=AESCTR,
    note="The stream functions keep an invariant which ties every output byte to the standard counter block of its position; proved for any stream position and call sequence, with the per-call length bounds stated in the evidence, over an abstract block cipher (P04).",
    assumptions=["streams shorter than 2^64 bytes", "at most 36 bytes per piecewise call; whole-buffer calls at the packet length 1028 (up to 80 bytes for every length in the thorough tier)",
                 "crypto_aesctr_arm.c is not built on this platform and not examined"])
AESU = [unit("aes_dispatch", "aes.c", defs=["-DU_DISPATCH"], unwind=34, functions=["crypto_aes_can_use_intrinsics", "crypto_aes_key_expand", "crypto_aes_encrypt_block", "crypto_aes_key_free"], native=AESNAT),
    unit("aesni_128", "aes.c", defs=["-DU_NI", "-DKL=16"], unwind=62, cbmc=["--slice-formula"], timeout=300, native=AESNAT,
         functions=["crypto_aes_key_expand_aesni", "crypto_aes_encrypt_block_aesni", "crypto_aes_encrypt_block_aesni_m128i", "crypto_aes_key_free_aesni"]),
    unit("aesni_256", "aes.c", defs=["-DU_NI", "-DKL=32"], unwind=62, cbmc=["--slice-formula"], timeout=400, native=AESNAT,
         functions=["crypto_aes_key_expand_aesni", "crypto_aes_encrypt_block_aesni", "crypto_aes_encrypt_block_aesni_m128i", "crypto_aes_key_free_aesni"])]
CPU = [unit("cpu_features", "cpusupport.c", unwind=6, native=dict(SELF, intrin=True), functions=["cpusupport_x86_%s_detect_1" % f for f in ("aesni", "rdrand", "shani", "sse2", "ssse3")])]
PROPS["P04"] = dict(units=AESU + CPU,
    note="AES-NI key expansion and encryption proved equal to FIPS-197 for every key and block with the S-box opaque; dispatch and feature detection proved; OpenSSL's AES_set_encrypt_key and AES_encrypt are trusted to be AES.",
    assumptions=["OpenSSL's AES is AES", "AES-NI instructions behave as documented (lib/intrin semantics validated by tools/test_intrin.sh)"])
PROPS["P05"]["units"] = PROPS["P05"]["units"] + CPU

# --- Handshake cryptography
def ck(name, d, fns, **kw):
    return unit(name, "crypt_keys.c", defs=["-D" + d], unwind=330, unwind_retry=False, timeout=400, native=SELF, functions=fns, **kw)
KEYS = [ck("keys", "U_KEYS", ["proto_crypt_dhmac", "proto_crypt_mkkeys", "mkkeypair", "proto_crypt_free"])]
VALID = [ck("dh_validate", "U_VALIDATE", ["proto_crypt_dh_validate", "is_not_one", "crypto_dh_sanitycheck", "crypto_verify_bytes"])]
DH = [ck("dh", "U_DH", ["proto_crypt_dh_generate", "crypto_dh_generate", "crypto_dh_generate_pub", "crypto_dh_compute", "blinded_modexp"])]
BYNAME = {u["name"]: u for u in HMAC + PBKDF2 + AESU + AESCTR + SHA_XFORM + SHA_STREAM}
PROPS["P07"] = dict(units=KEYS + [BYNAME["pbkdf2_dhmac"], BYNAME["pbkdf2_session"]],
    note="Derivation proved for every input and allocation failure, over PBKDF2's contract, itself discharged at the two shapes used.",
    assumptions=["crypto_dh_compute's contract is discharged under P09, AES under P04, HMAC under P06"])
PROPS["P08"] = dict(units=VALID + [BYNAME["hmacbuf_32"]],
    note="Acceptance proved equivalent to the stated condition for every message, key and setting; HMAC's contract is discharged at the shape used.",
    assumptions=["the group 14 prime is RFC 3526's formula, evaluated by tools/mkgroup14.py"])
PROPS["P09"] = dict(units=DH + VALID + [BYNAME["hmacbuf_32"]],
    note="Every exponent, base and modulus is tracked algebraically through the real code, every step may fail; OpenSSL's BIGNUM arithmetic is trusted.",
    assumptions=["OpenSSL's BN functions compute what they document (lib/vc_bn.h)", "the blinding value differs from the private value in its first byte (values are told apart by content)"])

# --- Handshake and data flow
PROPS["P10"] = dict(units=[unit("handshake", "handshake.c", unwind=290, unwind_retry=False, unwindset=["harness.0:6"], timeout=600,
        cbmc=["--slice-formula", "--max-field-sensitivity-array-size", "300"], native=SELF, always=3,
        functions=["proto_handshake", "proto_handshake_cancel", "callback_nonce_write", "callback_nonce_read", "gotnonces", "dhread",
                   "callback_dh_read", "dhwrite", "callback_dh_write", "handshakedone", "handshakefail"])] + KEYS,
    note="Every order of completion, failure and cancellation of the handshake proved over the contracts of network_read/write and the cryptographic steps (P06-P09).",
    assumptions=["message contents are followed at bytes 0, 17 and 31/287 in the proof and in full in the native exploration that accompanies it"])
def pp(d):
    return unit("pipe_dec" if d else "pipe_enc", "pipe.c", defs=["-DDECR=%d" % d, "-DROUNDS=3"], unwind=12, unwind_retry=False, timeout=400,
                cbmc=["--slice-formula"], native=SELF, always=3,
                functions=["proto_pipe", "proto_pipe_cancel", "callback_pipe_read", "callback_pipe_write"],
                bound="at most 10040 bytes available per wake-up; three wake-ups (the state between wake-ups is the same each time)")
PROPS["P11"] = dict(units=[pp(0), pp(1)],
    note="Positions and order of all bytes are followed through every outcome of each step; contents are compared in the accompanying native exploration.",
    assumptions=["contracts of netbuf_read (P29), network_write (P15) and the packet functions (P01, P02) as discharged there"])

CONN = [unit("conn_dec" if d else "conn_enc", "conn.c", defs=["-DDECR=%d" % d], unwind=12, unwind_retry=False, timeout=200, native=SELF, cbmc=["--slice-formula"],
    functions=["proto_conn_create", "proto_conn_drop", "starthandshake", "launchpipes", "callback_connect_done", "callback_connect_timeout",
               "callback_handshake_done", "callback_handshake_timeout", "callback_pipestatus"]) for d in (0, 1)]
PROPS["P12"] = dict(units=CONN,
    note="Every order of completions, expiries, failures and cancellation of a connection proved over the contracts of the operations it starts.",
    assumptions=["contracts of the handshake (P10), pipes (P11), connecting (P24), timers (P17)"])
PROPS["P13"] = dict(units=CONN,
    note="A timer of the given length is proved to run exactly while its step is pending, and its expiry to drop the connection.",
    assumptions=["timers expire as P17 states"])

# --- Buffered reading, network reads and writes, the event loop
# Units with lemma=True start from an arbitrary state satisfying a
# representation invariant; a failure there counts only if a run from the
# initial state (native, -UINDUCT) confirms it.
HIST = dict(mode="self", secs=15, defs=["-UINDUCT"])
NETBUF_F = ["netbuf_read_init", "netbuf_read_init2", "netbuf_read_peek", "netbuf_read_resize_buffer", "netbuf_read_wait",
            "callback_success", "callback_read", "netbuf_read_wait_cancel", "netbuf_read_consume", "netbuf_read_free"]
def netbuf(name, defs, **kw):
    return unit(name, "netbuf.c", defs=defs, unwind=12, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=600,
                functions=NETBUF_F, **dict(dict(native=SELF), **kw))
PROPS["P29"] = dict(units=[netbuf("netbuf_induct", ["-DROUNDS=1", "-DINDUCT"], lemma=True, native=HIST, always=3),
        netbuf("netbuf_history", ["-DROUNDS=2"], always=3, bound="first two waits from the initial state (any state in netbuf_induct)"),
        netbuf("netbuf_history4", ["-DROUNDS=3", ], thorough=True, bound="first three waits from the initial state")],
    note="Every operation proved from an arbitrary state satisfying the reader's invariant, for every buffer size up to 2^40, and from the initial state; the accompanying native exploration compares contents.",
    assumptions=["contract of network_read as discharged under P15", "SSL mode is not used by spiped"])

NETIO = [unit("network_" + w, "netio.c", defs=d, unwind=8, unwind_retry=False, cbmc=["--slice-formula"], timeout=200, native=SELF, always=3,
              functions=["network_" + w, "network_%s_cancel" % w, "callback_buf", "docallback"])
         for w, d in (("read", ["-DU_READ"]), ("write", []))]
PROPS["P15"] = dict(units=NETIO,
    note="Every outcome of every transfer proved for all buffer lengths up to 2^40 and all minimums; positions are proved, contents compared in the accompanying native exploration.",
    assumptions=["recv and send transfer between 1 and the requested number of bytes, or fail, as POSIX states",
                 "contract of events_network (P16) and mpool (unit mpool under P20)"])

# --- Data structures
EA_F = ["elasticarray_" + f for f in ("init", "resize", "getsize", "append", "shrink", "truncate", "get", "free", "export", "exportdup")] + ["resize"]
def ea(name, rec, defs, **kw):
    return unit(name, "elastic.c", defs=["-DRECLEN=%s" % rec] + defs, unwind=12, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical",
                timeout=400, functions=EA_F, **kw)
def eai(name, rec):
    return ea(name, rec, ["-DINDUCT"], lemma=True, native=dict(HIST, defs=["-UINDUCT", "-DOPS=20"]))
def mp(name, defs, **kw):
    return unit(name, "mpool.c", defs=defs, unwind=7, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=300,
                functions=["mpool_malloc", "mpool_free", "mpool_atexit"], **kw)
MPOOL = [mp("mpool_induct", ["-DSIZE=2", "-DINDUCT", "-DOPS=1"], lemma=True, native=dict(HIST, defs=["-UINDUCT", "-DOPS=60"]), always=2,
            bound="pools of nominal size 2 whose stack has grown at most once (the code treats every size alike)"),
         mp("mpool_history", ["-DSIZE=1", "-DOPS=4"], native=SELF, bound="first four operations on a pool of size 1")]
PROPS["P20"] = dict(units=[eai("elastic_1", "1"), eai("elastic_8", "8"), eai("elastic_24", "24"), eai("elastic_huge", "8589934592UL"),
        ea("elastic_history", "8", ["-DOPS=2"], native=dict(mode="self", secs=15, defs=["-UOPS", "-DOPS=20"]), always=3,
           bound="creation and two operations from the initial state (any state in the other units)")] + MPOOL,
    note="Each operation proved from an arbitrary state satisfying the array's invariant, for record sizes 1, 8, 24 and 2^33 and every count including overflowing ones; an arbitrary byte is followed through all copies.",
    assumptions=["record sizes other than 1, 8, 24 and 2^33 are not examined", "memory blocks are at most 2^46 bytes"])

PH_F = {0: ["ptrheap_increase", "heapify", "swap"], 1: ["ptrheap_decrease", "heapifyup", "swap"], 2: ["ptrheap_delete", "heapify", "heapifyup"],
        3: ["ptrheap_add", "heapifyup"], 4: ["ptrheap_deletemin", "ptrheap_getmin", "heapify"], 5: ["ptrheap_increasemin", "ptrheap_getmin", "heapify"]}
PHNAT = dict(HIST, defs=["-UINDUCT", "-UOPS", "-DOPS=60", "-UNMAX", "-DNMAX=20"])
def ph(name, defs, **kw):
    return unit(name, "ptrheap.c", defs=defs, unwind=10, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=500, **kw)
PTRHEAP = [ph("ptrheap_" + PH_F[o][0][8:], ["-DINDUCT", "-DNMAX=7", "-DOP=%d" % o], functions=PH_F[o], lemma=True, native=PHNAT, always=0 if o else 5,
              unwindset=["heapify.0:4", "heapifyup.0:5"], bound="heaps of at most 7 elements (8 after adding); every shape, order and key") for o in PH_F] + [
    ph("ptrheap_create", ["-DOPS=0", "-DNMAX=4", "-DCREATE=1"], functions=["ptrheap_create", "ptrheap_init", "ptrheap_free"],
       native=dict(PHNAT, defs=["-UOPS", "-DOPS=60", "-UNMAX", "-DNMAX=20", "-UCREATE"]), bound="heaps of at most 4 elements")]
PROPS["P18"] = dict(units=PTRHEAP + PROPS["P20"]["units"][1:2], level="model_checking",
    note="Each operation proved from every heap of at most 7 elements (all shapes, orders and 64-bit keys), over the contract of elasticarray.c; larger heaps are explored natively only.",
    assumptions=["heaps of more than 7 elements repeat the same steps at greater depth"])

T_F = ["events_timer_register", "events_timer_min", "events_timer_get", "gettimeout", "timerqueue_init", "timerqueue_add", "timerqueue_getmin", "timerqueue_getptr", "timerqueue_delete", "tvcmp"]
def tmr(name, reach, defs, fns=(), **kw):
    return unit("timer_" + name, "timers.c", defs=defs, reach=reach, unwind=5 if "-DNT=3" in defs else 4, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=600,
                functions=T_F + list(fns), native=dict(mode="self", secs=15, defs=["-UOPS", "-DOPS=30", "-UNT", "-DNT=6", "-UOP"]), **kw)
B2 = "at most two timers pending (three in the thorough tier)"
TIMERS = [tmr("min", reach=['time to wait', 'end'], defs=["-DNT=2", "-DOP=0"], bound=B2, always=4), tmr("cancel", reach=['cancelled', 'end'], defs=["-DNT=2", "-DOP=1"], fns=["events_timer_cancel", "timerqueue_delete"], bound=B2),
    tmr("reset", reach=['reset', 'end'], defs=["-DNT=2", "-DOP=2"], fns=["events_timer_reset", "timerqueue_increase"], bound=B2), tmr("get", reach=['none expired', 'delivered', 'end'], defs=["-DNT=2", "-DOP=3"], bound=B2),
    tmr("fails", reach=['reset', 'not set', 'end'], defs=["-DNT=1", "-DOP=2", "-DFAILS"], fns=["events_timer_shutdown", "timerqueue_free"]),
    tmr("double", reach=['none expired', 'delivered', 'end'], defs=["-DNT=1", "-DOP=3", "-DDOUBLE"], fns=["events_timer_register_double"], bound="delays of up to 2^32/1024 seconds in steps of 1/1024 s"),
    tmr("get3", reach=['none expired', 'delivered', 'end'], defs=["-DNT=3", "-DOP=3"], thorough=True), tmr("cancel3", reach=['cancelled', 'end'], defs=["-DNT=3", "-DOP=1"], thorough=True)]
PROPS["P17"] = dict(units=TIMERS, level="proof",
    note="Every operation is proved after any timers were set at any times with any delays up to 2^40 s, over the contract of ptrheap.c (P18), for two pending timers (the code handles each separately); more are explored natively with the real heap.",
    assumptions=["at most two timers at a time in the proof (three in the thorough tier)", "the clock does not go backwards (CLOCK_MONOTONIC)", "contract of ptrheap.c (P18)"])

EN_F = ["init", "growsocketlist", "growpollfd", "clearbit"]
def en(name, op, reach, fns, defs=(), **kw):
    return unit("evnet_" + name, "evnet.c", defs=["-DINDUCT", "-DOP=%d" % op, *defs], reach=reach + ["end"], unwind=5, unwind_retry=False, cbmc=["--slice-formula"],
                solver="cadical", timeout=300, lemma=True, functions=EN_F + fns, native=dict(HIST, defs=["-UINDUCT", "-UOPS", "-DOPS=40", "-UOP", "-UNFD", "-DNFD=5", "-UTIMES"]),
                bound="three descriptors (numbers 0 to 2); any state of the registrations", **kw)
EVLOOP = [unit("evloop", "evloop.c", unwind=9, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=300, native=SELF,
               functions=["events_run", "events_run_internal", "doevent", "events_mkrec", "events_freerec", "events_interrupt"],
               bound="three events per run of the loop")]
EVNET = [en("register", 0, ["registered", "not registered"], ["events_network_register"], always=4), en("cancel", 1, ["cancelled", "not cancelled"], ["events_network_cancel"]),
         en("select", 2, ["selected"], ["events_network_select"], ["-DTIMES=0"]), en("select_time", 2, ["selected"], ["events_network_select"], ["-DNFD=1"]),
         en("refuse", 3, [], ["events_network_register", "events_network_cancel"]), en("get", 4, ["delivered", "nothing to deliver"], ["events_network_get"])]
PROPS["P16"] = dict(units=EVNET + EVLOOP,
    note="Every operation proved from an arbitrary state of three descriptors satisfying the documented invariants, over the contracts of poll(2) and elasticarray.c; the loop which runs the events is proved over the contracts of its three sources.",
    assumptions=["three descriptors (the code treats each alike); more are explored natively", "poll(2) behaves as POSIX states", "contract of elasticarray.c (P20)"])
PROPS["P17"]["units"] = PROPS["P17"]["units"] + EVLOOP
def imm(sc):
    return unit("immediate_" + sc.lower(), "imm.c", defs=["-DNE=3", '-DSCHED="%s"' % sc, "-DPRIOS=4"], unwind=34, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=700,
                reach=["none", "delivered", "not registered", "end"], functions=["events_immediate_register", "events_immediate_cancel", "events_immediate_get"],
                native=dict(mode="self", secs=15, defs=["-USCHED", "-UNE", "-DNE=8", "-UPRIOS", "-DOPS=40"]), always=2,
                bound="at most three events, priorities 0, 1, 2 and 31, operations in the order %s (R register, C cancel any, G get) and then all are taken" % sc)
PROPS["P19"] = dict(units=[imm("RRRC"), imm("RRGR"), imm("RRCR")] + EVLOOP, level="model_checking",
    note="Proved for every choice of priorities, failures and cancelled event in the listed schedules of at most three events, and that the event loop runs what is taken once and in order; longer histories of eight events and all priorities are explored natively.",
    assumptions=["at most three events at a time in the proof", "contract of mpool (proved in unit mpool under P20)"])

DISP_F = ["dispatch_accept", "doaccept", "callback_gotconn", "callback_conndied", "callback_resolve", "callback_resolveagain", "dispatch_shutdown", "dispatch_request_shutdown"]
def dsp(name, defs, uw, sh, reach, **kw):
    return unit("dispatch_" + name, "dispatch.c", defs=defs, unwind=uw, unwind_retry=False, unwindset=["dispatch_shutdown.0:%d" % sh, "harness.0:4"], cbmc=["--slice-formula"],
                solver="cadical", timeout=800, reach=reach, functions=DISP_F, native=dict(mode="self", secs=15, defs=["-USTEPS", "-DSTEPS=12", "-UPREFIX", "-UMAXC", "-DMAXC=4"]), **kw)
DISPATCH = [dsp("start", ["-DSTEPS=2", "-DMAXC=2"], 6, 3, ["accepted", "not started", "end"], bound="two connections at most; the start and two steps", always=4),
            dsp("served", ["-DSTEPS=2", "-DMAXC=2", "-DPREFIX=1"], 8, 3, ["accepted", "end"], bound="two connections at most; two steps after one connection has been accepted"),
            dsp("three", ["-DSTEPS=2", "-DMAXC=3", "-DPREFIX=2"], 9, 4, ["accepted", "end"], thorough=True)]
PROPS["P14"] = dict(units=DISPATCH,
    level="model_checking",
    note="Every choice of events, failures and settings proved for one and two connections and two steps (the number of connections is only a counter in the code); longer histories with four connections are explored natively.",
    assumptions=["contracts of network_accept, proto_conn_create, the timers and sock_resolve", "at most two connections and two steps after the given prefix in the proof"])

def wp(name, defs, fns, uset=(), **kw):
    return unit("wipe_" + name, "wipe.c", defs=defs, unwind=210 if not uset else 70, unwindset=list(uset), unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=300,
                functions=fns, native=SELF, **kw)
WIPE = [wp("ctr", ["-DU_CTR", "-DLEN=37"], ["crypto_aesctr_buf", "crypto_aesctr_free"]), wp("sha", ["-DU_SHA=1"], ["SHA256_Update", "SHA256_Final", "SHA256_Buf"]),
        wp("hmac", ["-DU_HMAC=1", "-DKN=32"], ["HMAC_SHA256_Init", "HMAC_SHA256_Update", "HMAC_SHA256_Final"]),
        wp("hmac_long", ["-DU_HMAC=1", "-DKN=100"], ["HMAC_SHA256_Init", "HMAC_SHA256_Update", "HMAC_SHA256_Final"]),
        wp("hmacbuf", ["-DU_HMAC=2", "-DKN=32"], ["HMAC_SHA256_Buf"]), wp("hmacbuf_long", ["-DU_HMAC=2", "-DKN=100"], ["HMAC_SHA256_Buf"]),
        wp("pbkdf2", ["-DU_PB", "-DU_PB_SALT=64", "-DU_PB_LEN=40", "-DU_PB_C=1"], ["PBKDF2_SHA256"], ["SHA256_Update_internal.0:4", "PBKDF2_SHA256.1:2", "PBKDF2_SHA256.2:3", "PBKDF2_SHA256.0:3"])]
PROPS["P23"] = dict(units=WIPE + AESU,
    note="Every place in which the block function, cipher or memcpy leaves secret bytes is proved to be overwritten before the operation returns, and every freed key or stream object is proved to be all zero, on every path; the lengths are those in the evidence.",
    assumptions=["secrets kept in registers or in copies made by the compiler are outside the C semantics", "insecure_memzero is not optimised away (it is called through a volatile pointer)"])

# --- Random numbers, key file, addresses, connecting, parsing, privileges, spipe
def dr(case, tmo=300, reach=("output", "failure"), **kw):
    return unit("drbg_case%d" % case, "drbg.c", defs=["-DVC_HW", "-DCASES=%d" % case], unwind=82, unwind_retry=False, solver="cadical", timeout=tmo, lemma=True,
                cbmc=["--slice-formula", "--max-field-sensitivity-array-size", "128"], reach=list(reach), native=dict(SELF, defs=["-UCASES", "-DCALLS=600"]),
                functions=["crypto_entropy_read", "instantiate", "reseed", "generate", "update", "update_from_rdrand"], **kw)
PROPS["P21"] = dict(units=[dr(0, bound="first request, any length up to the limit stated in the unit", always=4), dr(1, reach=("output",)), dr(2)],
    note="Every request is proved to follow SP 800-90A HMAC_DRBG over an uninterpreted HMAC, from any generator state and for every failure of the operating system's source; long histories are explored natively.",
    assumptions=["HMAC_SHA256's contract is discharged under P06", "entropy_read fills the buffer or reports failure"])
KEYFILE = [unit("keyfile", "keyfile.c", unwind=34, unwind_retry=False, unwindset=["proto_crypt_secret.0:6"], cbmc=["--slice-formula"], solver="cadical", timeout=200, always=3,
    native=dict(SELF, defs=["-UREADS", "-DREADS=20"], libs=["-Wl,--unresolved-symbols=ignore-all"]), functions=["proto_crypt_secret", "proto_crypt_secret_free"],
    bound="at most four reads (the loop treats each alike)")]
PROPS["P22"] = dict(units=KEYFILE,
    note="Every split of the file into reads, every failure; the digest is followed through an abstract SHA-256 which records what it was given in order.",
    assumptions=["SHA256_*'s contracts are discharged under P05", "at most four reads in the proof, twenty in the native exploration"])
PROPS["P23"]["units"] = PROPS["P23"]["units"] + KEYFILE
SOCKN = dict(SELF, defs=["-UKIND", "-ULEN", "-DLEN=8", "-UNLEN", "-DNLEN=4"])
def sk(name, defs, unwind, reach, fns, tmo=400, **kw):
    return unit("sock_" + name, "sock.c", defs=["-D_DEFAULT_SOURCE", *defs], unwind=unwind, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=tmo,
                reach=list(reach), functions=fns, native=dict(SOCKN, defs=[] if "-DLEN=4" not in defs and "-DLEN=3" not in defs and "-DLEN=6" not in defs else SOCKN["defs"]), **kw)
RS = ["sock_resolve", "sock_addr_free", "sock_addr_freelist"]
SOCK = [sk("resolve_unix", ["-DOP=0", "-DKIND=0", "-DLEN=3", "-DNLEN=4"], 5, ["refused", "path"], RS + ["sock_resolve_unix"], bound="strings of at most 3 bytes"),
        sk("resolve_host", ["-DOP=0", "-DKIND=1", "-DLEN=4", "-DNLEN=4"], 6, ["refused", "host"], RS + ["sock_resolve_host"], bound="strings of at most 4 bytes"),
        sk("resolve_ip", ["-DOP=0", "-DKIND=2", "-DLEN=6", "-DNLEN=4"], 8, ["refused", "IPv6", "IPv4"], RS + ["sock_resolve_ipv6", "sock_resolve_ipv4"], bound="strings of at most 6 bytes"),
        sk("cmp", ["-DOP=1", "-DWHAT=0", "-DNLEN=6"], 8, ["compared"], ["sock_addr_cmp"], bound="names of at most 6 bytes"),
        sk("dup", ["-DOP=1", "-DWHAT=1", "-DNLEN=6"], 8, ["no memory", "copied"], ["sock_addr_dup", "sock_addr_free"], bound="names of at most 6 bytes"),
        sk("duplist", ["-DOP=1", "-DWHAT=2", "-DNLEN=6"], 8, ["no memory", "copied"], ["sock_addr_duplist", "sock_addr_freelist"], bound="names of at most 6 bytes, lists of the length in the unit"),
        sk("ensure_port", ["-DOP=2", "-DLEN=4"], 7, ["unchanged", "appended"], ["sock_addr_ensure_port"], bound="strings of at most 4 bytes"),
        sk("unix_length", ["-DOP=5"], 114, ["too long", "long enough"], ["sock_resolve_unix"], bound="paths of 107 and 108 bytes"),
        sk("resolve_one", ["-DOP=6", "-DLEN=4", "-DNLEN=4"], 6, ["none", "first"], ["sock_resolve_one"], thorough=True, bound="strings of at most 4 bytes")]
PROPS["P27"] = dict(units=SOCK, level="model_checking",
    note="Every string of the stated length over every byte value, every structure with names of at most 6 bytes and every allocation failure; longer strings are explored on failure only.",
    assumptions=["getaddrinfo and inet_pton behave as POSIX states", "strings and names of the lengths stated per unit"])
NETSOCK = {3: sk("connect_nb", ["-DOP=3"], 22, ["no socket", "socket"], ["sock_connect_bind_nb", "sock_connect_nb"]),
           4: sk("listener", ["-DOP=4"], 22, ["no socket", "socket"], ["sock_listener"])}
def cn(na, **kw):
    return unit("connect%d" % na, "connect.c", defs=["-DNA=%d" % na], unwind=na + 2, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=500,
                native=dict(SELF, defs=["-UNA", "-DNA=3"]), bound="at most %d addresses" % na,
                functions=["network_connect", "network_connect_bind", "network_connect_timeo", "network_connect_cancel", "tryconnect", "dofailed", "docallback", "callback_connect", "callback_timeo"], **kw)
PROPS["P24"] = dict(units=[cn(2, always=4), NETSOCK[3], cn(3, thorough=True, unwindset=["tryconnect.0:4", "harness.1:5"])], level="model_checking",
    note="Every outcome of socket creation, connection, registration and timer, every readiness order and cancellation point, for lists of at most two addresses (three in the thorough tier and in the native exploration).",
    assumptions=["contracts of the event loop (P16, P17, P19)", "getsockopt(SO_ERROR) reports the outcome as POSIX states"])
PROPS["P25"] = dict(units=[unit("accept", "accept.c", unwind=6, unwind_retry=False, cbmc=["--slice-formula"], timeout=200, native=SELF, always=2,
        functions=["network_accept", "network_accept_cancel", "callback_accept"]), NETSOCK[4]],
    note="Every result of accept(2) at each readiness, every failure of registration and every cancellation point.",
    assumptions=["contract of events_network_register/cancel (P16)", "the number of readiness notices in one run is bounded by the unit; the state is the same at each"])
def pn(name, *defs):
    return unit("parsenum_" + name, "parsenum.c", defs=list(defs), unwind=6, unwind_retry=False, cbmc=["--slice-formula"], timeout=200, native=dict(SELF, secs=8),
                reach=["accepted", "refused"], functions=["PARSENUM", "parsenum_float", "parsenum_signed", "parsenum_unsigned"], bound="strings of at most 4 bytes; the result of the C library's conversion is arbitrary")
PROPS["P26"] = dict(units=[pn("size", "-DT_SIZE", "-DT=size_t"), pn("u32", "-DT_U32", "-DT=uint32_t"), pn("u16", "-DT_U", "-DT=uint16_t"), pn("u64", "-DT_U", "-DT=uint64_t"),
        pn("port", "-DT_PORT"), pn("s32", "-DT_S", "-DT=int32_t"), pn("smax", "-DT_S", "-DT=intmax_t"), pn("double", "-DT_F")],
    note="Every result of strtod, strtoimax and strtoumax, every bound, every position where the conversion stops; the decision does not otherwise look at the text, which is bounded to 4 bytes.",
    assumptions=["strtod, strtoimax and strtoumax behave as the C standard states", "the text is at most 4 bytes long in the proof"])
PROPS["P28"] = dict(units=[unit("pushbits", "pushbits.c", unwind=5, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=300, always=3,
        native=dict(SELF, defs=["-UREADS", "-DREADS=20", "-UWRITES", "-DWRITES=20"]), functions=["pushbits", "workthread", "workthread_cleanup", "noeintr_write"],
        bound="the number of reads and of writes per read stated in the unit")],
    note="Every result of each read, write and shutdown, including interruption and cancellation, for a few reads (each goes round the same loop); twenty are explored natively.",
    assumptions=["read, write and shutdown behave as POSIX states", "threads start and are cancelled as POSIX states"])
PRIV = [unit("setuidgid", "setuidgid.c", unwind=8, unwind_retry=False, cbmc=["--slice-formula"], solver="cadical", timeout=200, native=SELF, always=2,
        functions=["setuidgid", "set_group", "set_user", "string_extract_user_group", "check_supplementary_groups_none", "setgroups_none"],
        bound="strings of at most 5 bytes over the bytes the code distinguishes")]
PROPS["P30"] = dict(units=PRIV,
    note="Every user and group string, database result and failing system call, over a stand-in for the kernel's ids which refuses what an unprivileged process may not do.",
    assumptions=["the system calls behave as POSIX states", "strings of at most 5 bytes"])

NOT_APPLICABLE = {
    "P31": "The resolver thread and the main thread interact through mutexes, condition variables and a pipe; the contract verifier present (CBMC function contracts) has no ownership or rely-guarantee reasoning for threads, so the property cannot be expressed as contracts on the functions.",
    "P32": "Timing is not part of the C semantics the verifier reasons about, and the property is about what the compiler and CPU make of the code.",
}
