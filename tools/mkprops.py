#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
PC = "lib/proto/proto_crypt.c"
p("P01", "Every packet sent has exactly the documented encrypted format",
  "For every message of at most 1024 bytes, the 1060-byte packet produced is AES-256-CTR of (message, zero padding to 1024 bytes, big-endian 32-bit length) under the sending direction's encryption key with the packet number as nonce, followed by HMAC-SHA256 of (ciphertext, big-endian 64-bit packet number) under that direction's MAC key. Packet numbers start at zero for a new key and increase by exactly one per packet sent, so no (key, nonce) pair is ever used twice.",
  ["inputs", "histories"], "every message content and length 0..1024, every packet number, every key",
  "The tests run both ends with the same code, so a consistent deviation (wrong padding, reused nonce, MAC over less data) interoperates with itself and passes; packet numbers beyond the first few are never reached.",
  [PC, "lib/proto/proto_crypt.h"], [("encrypt-then-MAC of one packet", "proto_crypt_enc in "+PC), ("packet counter", "proto_keys.pnum in "+PC)],
  [("packet number", "number of packets already encrypted under this key", "struct proto_keys")], ["output buffer of the packet encryption function"])
p("P02", "Only the genuine next packet is accepted, and exactly its data is delivered",
  "A received 1060-byte packet is accepted only if all 32 bytes of its MAC equal the HMAC-SHA256 of its ciphertext and the next expected packet number under the receiving direction's MAC key, and its decrypted length is 1..1024; any corrupted, replayed, reordered or forged packet is rejected. An accepted packet yields exactly the message that was encrypted, and every packet produced by the sending side from a non-empty message is accepted by the peer holding the same keys, in order.",
  ["inputs", "histories"], "every 1060-byte packet, every packet number, every key; every message for the round trip",
  "Tests never send a corrupted, replayed or truncated packet, and no finite sample shows that all other packets are rejected.",
  [PC, "libcperciva/crypto/crypto_verify_bytes.c"], [("MAC verification before use", "proto_crypt_dec in "+PC), ("comparison of all bytes", "crypto_verify_bytes")])
p("P03", "The AES-CTR keystream is the standard one for every length and split",
  "Encrypting any sequence of buffers with a key and nonce XORs the data at byte position i with byte (i mod 16) of AES(key, big-endian nonce, big-endian i/16), regardless of how the data is split into calls, of whether input and output are the same buffer, and of whether the portable or the CPU-accelerated implementation is used. No byte outside the output range is written.",
  ["inputs", "histories", "configurations"], "every key, nonce, buffer length and chunking; portable and AES-NI paths",
  "Tests use one packet length and whichever CPU path the machine has on both ends; counter wrap at block 256 and odd splits are never compared with a reference.",
  ["libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aesctr_shared.c", "libcperciva/crypto/crypto_aesctr_aesni.c"],
  [("block counter", "crypto_aesctr_stream_cipherblock_generate"), ("accelerated whole blocks", "crypto_aesctr_aesni_stream_wholeblocks")])
p("P04", "AES block encryption equals FIPS-197 AES on every implementation path",
  "For every 128-bit and 256-bit key and every 16-byte block, the accelerated key expansion and block encryption compute the FIPS-197 AES encryption of the block, and the portable path hands exactly the given key, key length and block to the AES library. Accelerated instructions are used only when the CPU offers them and only with keys expanded for them.",
  ["inputs", "configurations"], "every key of both sizes and every block, both implementation paths",
  "Both ends of every test use the same CPU path, so a wrong key schedule or round interoperates with itself.",
  ["libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aes_aesni.c"],
  [("key schedule", "crypto_aes_key_expand_256_aesni"), ("dispatch", "crypto_aes_key_expand / crypto_aes_encrypt_block")])
p("P05", "SHA-256 matches FIPS 180-4 for every message, split and implementation",
  "For every message, hashing it in any sequence of pieces gives the FIPS 180-4 SHA-256 digest of the whole message: every byte is compressed exactly once in order, followed by the 0x80 byte, zero padding and the 64-bit big-endian bit length. The portable and CPU-accelerated compression functions compute the same standard compression.",
  ["inputs", "histories", "configurations"], "every message length, content and split; every compression input",
  "Tests never compare a digest with a reference: both ends use the same code, and block-boundary lengths are not exercised.",
  ["libcperciva/alg/sha256.c", "libcperciva/alg/sha256_sse2.c", "libcperciva/alg/sha256_shani.c"],
  [("padding and length", "SHA256_Pad in sha256.c"), ("buffering", "SHA256_Update in sha256.c"), ("compression", "SHA256_Transform in sha256.c")])
p("P06", "HMAC-SHA256 and PBKDF2-SHA256 match their standards",
  "For every key and message, the MAC produced equals RFC 2104 HMAC with SHA-256, whatever the key length (shorter than, equal to or longer than one hash block) and however the message is split. PBKDF2 output equals RFC 8018 PBKDF2 with that MAC for every password, salt, iteration count and output length, and writes exactly the requested number of bytes.",
  ["inputs", "histories"], "every key, message, salt, iteration count and output length",
  "Both ends share the code, so a nonstandard construction still interoperates in every test.",
  ["libcperciva/alg/sha256.c"], [("HMAC construction", "HMAC_SHA256_Init/Update/Final"), ("block iteration", "PBKDF2_SHA256")])
p("P07", "Both ends derive the documented keys, and matching directions",
  "The handshake MAC keys are the two halves of PBKDF2-SHA256(K, nonce_C || nonce_S, 1) and the session keys are, in order, E_C, H_C, E_S, H_S from PBKDF2-SHA256(K, nonce_C || nonce_S || y_SC, 1), with C and S assigned by role. Hence a client and a server with the same secret and the exchanged nonces obtain identical client-to-server keys and identical server-to-client keys, distinct positions of the derived output being used for each of the four keys, and any failure yields no keys.",
  ["inputs", "configurations"], "every secret, nonce pair, shared value, role and forward-secrecy mode",
  "Tests cannot see the derived keys; a consistent swap or reuse of key material (for example the same key in both directions) passes every end-to-end test.",
  [PC], [("dk_1 derivation", "proto_crypt_dhmac"), ("dk_2 derivation", "proto_crypt_mkkeys, mkkeypair")])
p("P08", "A peer's Diffie-Hellman value is accepted only if authenticated and in range",
  "A received Diffie-Hellman message is accepted if and only if its 32-byte MAC equals the HMAC of the 256-byte value under the peer's handshake MAC key, the value is less than the group modulus, and, when perfect forward secrecy is required, the value is not 1.",
  ["inputs"], "every 288-byte message, every MAC key, both settings of the requirement",
  "Tests only ever receive valid values from the same program, so no rejection path and no boundary value (p-1, p, 1) is exercised.",
  [PC, "libcperciva/crypto/crypto_dh.c", "libcperciva/crypto/crypto_dh_group14.c"], [("validation", "proto_crypt_dh_validate"), ("range check", "crypto_dh_sanitycheck")])
p("P09", "Diffie-Hellman values are computed correctly from fresh secret exponents",
  "With perfect forward secrecy the value sent is 2 raised to a secret exponent derived from 256 fresh random bits modulo the RFC 3526 group 14 prime, and the shared value is the peer's value raised to that same exponent, both as 256-byte left-zero-padded big-endian numbers, so both ends agree. Without it the value is 1; the value sent is always followed by its HMAC, and any failure of the randomness source or of an arithmetic step is reported instead of a value.",
  ["inputs", "fault_sequences"], "every random string, every peer value, every result length, every failing step",
  "Results with leading zero bytes occur once in 256 runs and library failures never occur in tests.",
  ["libcperciva/crypto/crypto_dh.c", PC], [("blinded exponentiation", "blinded_modexp"), ("generation", "crypto_dh_generate, proto_crypt_dh_generate"), ("agreement", "crypto_dh_compute")])
p("P10", "The handshake yields keys only after the peer authenticated, exactly once",
  "Under every order and outcome of network completions, the handshake sends a fresh random nonce, sends and accepts Diffie-Hellman messages only under the MAC keys of the exchanged nonces, and reports session keys only if the peer's message passed validation; otherwise it reports failure with no keys. It reports exactly once unless cancelled, never after cancellation, and releases every resource and pending operation on every path.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving of nonce, parameter and write completions, every short read, allocation failure and cancellation point, both roles and all forward-secrecy settings",
  "Tests see one ordering on loopback with no failures; a completion order or a failure point that skips validation is not reached.",
  ["lib/proto/proto_handshake.c"], [("state machine", "callbacks of proto_handshake.c"), ("failure path", "handshake_failed and callers")])
p("P11", "A pipe forwards the byte stream in order, losing and duplicating nothing",
  "Each direction of a connection delivers to its output exactly the transformed bytes read from its input, in order, each once, writing only complete encrypted packets or complete decrypted messages; no byte of a rejected packet is written. On end of input the output's write side is shut down, but only after all earlier data has been handed over, and the direction's status becomes end-of-stream; on any error the status becomes failure, and the owner is told.",
  ["schedules", "inputs", "histories"], "every sequence of read sizes, partial packets, write results and shutdown points, both directions",
  "Tests transfer data over loopback where reads are usually large and errors absent; partial packets at every offset and failures mid-stream are not reached.",
  ["lib/proto/proto_pipe.c"], [("read handler", "callback_pipe_read"), ("write completion", "callback_pipe_write")])
p("P12", "Connection lifecycle: no data before handshake, one teardown, nothing leaked",
  "For every order of connect, handshake, timeout, pipe and cancellation events, data flows only after both the outgoing connection and the handshake have succeeded, with keys used in the direction given by the role. Every connection is torn down exactly once: both sockets closed once, pending operations, timers, pipes and keys released, and the owner notified exactly once with nothing touched afterwards; a connection with one direction finished stays up until the other finishes, and an error in either direction tears it down.",
  ["schedules", "fault_sequences"], "every interleaving of the asynchronous completions of one connection and every failure point, both roles",
  "Tests exercise two or three fixed event orders; use-after-free, double close and leaks show only in rare orders.",
  ["lib/proto/proto_conn.c"], [("teardown", "dropconn / proto_conn_drop"), ("start of pipes", "launchpipes"), ("completion", "callback_pipestatus")])
p("P13", "Connect and handshake time limits are enforced",
  "Every new connection to be protected has a timer of the configured connection timeout running until its target connection is established and a timer of the configured handshake length for the key exchange, and if either expires first the connection is dropped. Once the corresponding step completes its timer is cancelled and can no longer affect the connection.",
  ["schedules", "configurations"], "every timeout setting and every order of completion and expiry events",
  "One test waits for a single timeout; races between completion and expiry are not scheduled.",
  ["lib/proto/proto_conn.c"], [("timers", "starthandshake, callback_connect_timeout, callback_handshake_timeout")])
p("P14", "The daemon never exceeds its connection limit and always resumes accepting",
  "At every moment the number of live connections is at most the configured maximum, the daemon is listening for a new connection whenever it is below the maximum and not shutting down, and every accepted socket either becomes a live connection or is closed. After a shutdown request no further connection is accepted, and the daemon finishes exactly when its last connection ends if asked to finish then, releasing everything it holds.",
  ["schedules", "histories", "fault_sequences"], "every sequence of accepts, connection ends, resolutions, failures and shutdown requests",
  "Tests use at most a couple of connections with the default limit; accounting drift after failures needs long or faulty histories.",
  ["spiped/dispatch.c"], [("accept accounting", "doaccept, callback_gotconn, callback_conndied"), ("shutdown", "dispatch_shutdown, dispatch_request_shutdown")],
  [("active connections", "live connections", "struct accept_state")])
p("P15", "Network reads and writes transfer exactly the bytes, then report once",
  "A read reports success only with at least the requested minimum and at most the buffer length, having stored exactly the bytes received in order; end of file and errors are reported as such, and temporary conditions never are. A write sends the buffer's bytes in order without gap or repeat and reports success only after at least the requested minimum was sent; each operation reports exactly once and never after cancellation.",
  ["inputs", "schedules", "fault_sequences"], "every sequence of partial transfers, interruptions, would-block results, errors and EOF, every buffer length and minimum",
  "Loopback sockets rarely give partial transfers, EINTR or EAGAIN in tests.",
  ["libcperciva/network/network_read.c", "libcperciva/network/network_write.c"], [("read loop", "callback_buf of network_read.c"), ("write loop", "callback_buf of network_write.c")])
p("P16", "Socket readiness dispatch runs each registered callback exactly once",
  "At most one reader and one writer can be registered per descriptor; a registered callback becomes runnable only when its descriptor is ready (or in error), is delivered at most once with its own cookie, and is never delivered after cancellation. Registering, cancelling and delivering in any order never loses or confuses another descriptor's registration.",
  ["histories", "schedules"], "every sequence of registrations, cancellations, poll results and deliveries",
  "The tests reach only a handful of descriptors in stable patterns; the index bookkeeping under removal in arbitrary order is not covered.",
  ["libcperciva/events/events_network.c"], [("registration tables", "events_network_register/cancel/select/get")])
p("P17", "Timers fire in deadline order, never early, exactly once, and can be cancelled",
  "A timer becomes runnable only once its full delay has elapsed since it was set (or last reset), earlier deadlines first, and each timer is delivered exactly once unless cancelled. Cancelling or resetting one timer affects no other, and the reported time to the next deadline is that of the earliest pending timer.",
  ["histories", "inputs"], "every sequence of timer operations, every delay and every clock value",
  "Tests use at most a couple of timers and do not check ordering under cancellation; microsecond carries are not exercised.",
  ["libcperciva/events/events_timer.c", "libcperciva/datastruct/timerqueue.c"], [("deadline computation", "gettimeout in events_timer.c"), ("queue", "timerqueue.c")])
p("P18", "The priority heap always yields its minimum and tracks every element",
  "After any sequence of insertions, key changes, deletions and minimum removals, the heap's minimum is the smallest element under the caller's order, no element is lost or duplicated, and every element's recorded position identifies it.",
  ["histories", "inputs"], "every operation sequence, heap size and comparison order",
  "Tests never build heaps of more than a few elements; structural mistakes need specific shapes.",
  ["libcperciva/datastruct/ptrheap.c"], [("sift up/down", "heapifyup, heapify"), ("record numbers", "setreccookie calls")])
p("P19", "Immediate events run by priority and then in order of registration",
  "The next immediate event to run is always the earliest registered among those of the numerically smallest pending priority; each event runs exactly once unless cancelled, and cancelling one affects no other.",
  ["histories"], "every sequence of registrations, cancellations and deliveries over all 32 priorities",
  "Tests never register competing priorities.",
  ["libcperciva/events/events_immediate.c", "libcperciva/events/events.c"], [("queues", "events_immediate_register/get/cancel")])
p("P20", "Growable arrays keep their contents and reject impossible sizes",
  "Appending, shrinking, resizing and exporting a growable array preserve all retained elements in place, an operation that fails for lack of memory or size overflow leaves the array as it was, and no operation ever accesses memory beyond the allocation, for every element size and count including those whose byte size would overflow.",
  ["histories", "inputs", "fault_sequences"], "every operation sequence, record size and count, with allocation failure at any point",
  "Allocation failures and size overflows do not occur in tests.",
  ["libcperciva/datastruct/elasticarray.c", "libcperciva/datastruct/elasticarray.h"], [("resizing", "resize in elasticarray.c")])
p("P21", "Random numbers come from a properly seeded and reseeded HMAC_DRBG",
  "No output is produced before the generator has been seeded with 256 bits from the operating system (plus nonce) and every output is what SP 800-90A HMAC_DRBG specifies, state being updated after every request and reseeded from the operating system at least every 256 requests. Any failure of the operating system source is reported as an error and never replaced by predictable or partial output.",
  ["inputs", "histories", "fault_sequences"], "every request length and number of requests, every short read or failure of the entropy source",
  "Random output looks random in any test whether or not it is properly generated.",
  ["libcperciva/crypto/crypto_entropy.c", "libcperciva/util/entropy.c"], [("DRBG", "instantiate, update, reseed, generate in crypto_entropy.c"), ("OS entropy", "entropy_read in entropy.c")])
p("P22", "The protocol secret is the SHA-256 of the whole key file, or nothing",
  "Loading a key yields the SHA-256 digest of exactly all bytes of the key file (or of standard input), however the reads are split, and if the file cannot be opened or a read fails no secret is returned and nothing is leaked.",
  ["inputs", "fault_sequences"], "every file length and content, every split of reads, every failure point",
  "Tests use one small key file and no read errors; ignoring the tail of a file or a read error is invisible when both ends do it.",
  [PC], [("key file reading", "proto_crypt_secret")])
p("P23", "Secret material is erased before its memory is released",
  "When the protocol secret is freed, an AES key is freed, an AES-CTR operation ends, or a hash or MAC computation finishes, all the secret bytes held in those objects have been overwritten with zeroes before the memory is given back, on every path and implementation.",
  ["inputs", "configurations"], "every object contents, key size and implementation path",
  "No test inspects released memory.",
  [PC, "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aes_aesni.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/alg/sha256.c"],
  [("wiping", "insecure_memzero calls before free / at end of operation")])
p("P24", "Outgoing connections try every address in order and report once",
  "Connecting tries the given addresses in order until one succeeds, reports exactly once either a connected non-blocking socket or failure after all were tried or the time limit passed, never reports after cancellation, and closes every socket of an unsuccessful attempt.",
  ["schedules", "inputs", "fault_sequences"], "every address list, every failure of socket creation, connection or registration, every readiness order and cancellation point",
  "Tests connect to a single loopback address that answers at once.",
  ["libcperciva/network/network_connect.c", "libcperciva/util/sock.c"], [("attempt loop", "tryconnect, callback_connect, callback_timeo")])
p("P25", "Accepting delivers each incoming connection exactly once",
  "Waiting for a connection delivers exactly one connected socket or one error, temporary conditions cause waiting to continue, and nothing is delivered after cancellation. The socket listened on is non-blocking, so an incoming connection which has gone away never blocks the daemon.",
  ["schedules", "fault_sequences"], "every sequence of accept results and cancellation points",
  "Aborted and interrupted accepts do not happen on loopback tests.",
  ["libcperciva/network/network_accept.c"], [("accept loop", "callback_accept")])
p("P26", "Numeric options are parsed exactly or rejected",
  "A numeric command-line value is accepted only if the whole string is a number within the documented bounds for that option, and the accepted value is the number written; anything else (trailing text, empty, out of range, overflow) is refused.",
  ["inputs"], "every string and every bound of every supported type",
  "Tests pass only a few well-formed values.",
  ["libcperciva/util/parsenum.h", "spiped/main.c"], [("parsing", "parsenum_signed, parsenum_unsigned, parsenum_float")])
p("P27", "Address strings are parsed faithfully and address copies are independent",
  "An address string is interpreted as a Unix path if it starts with '/', as [IPv6]:port, or as host:port split at the last colon, with malformed strings or ports rejected without leak; a bare host gets the default port appended. Copied addresses equal the original in every field, share no memory with it, and comparison reports equality exactly when family, type and all name bytes agree.",
  ["inputs", "fault_sequences"], "every address string and every address structure, with allocation failure at any point",
  "Tests use two or three literal addresses.",
  ["libcperciva/util/sock.c", "libcperciva/util/sock_util.c"], [("parsing", "sock_resolve"), ("copying and comparing", "sock_addr_dup, sock_addr_duplist, sock_addr_cmp, sock_addr_ensure_port")])
p("P28", "spipe's local copying moves every byte and propagates end of input",
  "Copying between a local descriptor and the pipe writes every byte read, in order, retrying partial and interrupted writes, and stops on end of input by shutting down the destination's write side if it is a socket; a read or write error ends copying without inventing data.",
  ["inputs", "schedules", "fault_sequences"], "every sequence of read and write results",
  "Partial and interrupted writes seldom occur in tests.",
  ["spipe/pushbits.c", "libcperciva/util/noeintr.c"], [("copy loop", "workthread in pushbits.c"), ("full write", "noeintr_write")])
p("P29", "Buffered reads present the stream contiguously and in order",
  "A buffered reader exposes exactly the unread bytes of the stream in order, waiting reports success only once at least the requested number of bytes is available, consuming removes exactly that many bytes, and growth or compaction of the buffer never loses or reorders data; end of file and errors are reported and nothing is reported after cancellation.",
  ["histories", "inputs", "fault_sequences"], "every sequence of waits, reads, consumes and cancellations, every buffer size",
  "No test drives the buffered reader through compaction and growth.",
  ["libcperciva/netbuf/netbuf_read.c"], [("buffer management", "netbuf_read_wait, callback_read, netbuf_read_consume")])
p("P30", "Privileges are fully dropped to the requested user, or startup fails",
  "When asked to run as another user and group, the process changes its supplementary groups, group and user ids to exactly those requested, in an order in which each step is still permitted, and any lookup or system failure is reported as failure instead of continuing with the old privileges.",
  ["inputs", "fault_sequences"], "every user/group string (name or number, either part missing) and every failing step",
  "Tests do not run as root with a target user; failure of a step is never provoked.",
  ["libcperciva/util/setuidgid.c", "spiped/main.c"], [("dropping", "setuidgid")])
p("P31", "Background name re-resolution neither races nor blocks forwarding",
  "Refreshing the target address in the background thread never exposes a half-updated result to the event loop, never delivers a result twice or after the requester has gone, and an unresponsive resolver never stalls forwarding.",
  ["schedules"], "every interleaving of the resolver thread with the event loop",
  "Tests resolve once, without contention.",
  ["lib/dnsthread/dnsthread.c"], [("hand-over between threads", "workthread, dnsthread_resolve, callback_resolveone")])
p("P32", "Secret comparisons take time independent of the data",
  "Comparing a received MAC with the expected one takes the same sequence of memory accesses and branches whatever the bytes are, so that timing reveals nothing about how much of a forgery was right.",
  ["inputs"], "every pair of equal-length byte strings, and every compiler output",
  "Tests cannot observe timing differences reliably.",
  ["libcperciva/crypto/crypto_verify_bytes.c"], [("accumulating comparison", "crypto_verify_bytes")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
