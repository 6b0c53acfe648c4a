"""Texts of the properties: source of properties.jsonl, MANIFEST.json and the
bounds stated in the evidence (tools/gen.py writes the files)."""

CH = ["chacha20/src/lib.rs", "chacha20/src/chacha.rs", "chacha20/src/variants.rs", "chacha20/src/backends/soft.rs",
      "chacha20/src/backends/sse2.rs", "chacha20/src/backends/avx2.rs", "chacha20/src/backends/avx512.rs"]
SA = ["salsa20/src/lib.rs", "salsa20/src/backends/soft.rs"]
OTHER = ["rc4/src/lib.rs", "rabbit/src/lib.rs", "hc-256/src/lib.rs"]
RNG = ["chacha20/src/rng.rs", "chacha20/src/lib.rs", "chacha20/src/variants.rs"]
ALLF = CH + ["chacha20/src/xchacha.rs", "chacha20/src/legacy.rs"] + SA + ["salsa20/src/xsalsa.rs"] + OTHER

M = {
    "chacha-new": ("ChaChaCore::new_internal", "chacha20/src/lib.rs"),
    "chacha-disp": ("ChaChaCore::process_with_backend (backend choice)", "chacha20/src/lib.rs"),
    "qr": ("quarter_round", "chacha20/src/lib.rs"),
    "soft": ("soft::Backend::gen_ks_block, run_rounds", "chacha20/src/backends/soft.rs"),
    "sse2": ("sse2::inner, Backend::gen_par_ks_blocks, rng_inner", "chacha20/src/backends/sse2.rs"),
    "avx2": ("avx2::inner, Backend::gen_par_ks_blocks, rng_inner", "chacha20/src/backends/avx2.rs"),
    "avx512": ("avx512::inner, gen_par_ks_blocks, gen_tail_blocks", "chacha20/src/backends/avx512.rs"),
    "neon": ("neon::inner, rng_inner", "chacha20/src/backends/neon.rs"),
    "var": ("Variant::{get,set}_block_pos, remaining_blocks", "chacha20/src/variants.rs"),
    "hchacha": ("hchacha, XChaChaCore::new", "chacha20/src/xchacha.rs"),
    "salsa": ("SalsaCore::new, get/set_block_pos, remaining_blocks", "salsa20/src/lib.rs"),
    "salsasoft": ("gen_ks_block, run_rounds, quarter_round", "salsa20/src/backends/soft.rs"),
    "hsalsa": ("hsalsa, XSalsaCore::new", "salsa20/src/xsalsa.rs"),
    "rc4": ("Rc4::new_from_slice, prga", "rc4/src/lib.rs"),
    "rabbit": ("State::setup_key, setup_iv, counter_update, next_state, extract", "rabbit/src/lib.rs"),
    "hc": ("Hc256Core::new, gen_word, g1/g2/h1/h2", "hc-256/src/lib.rs"),
    "gen": ("Generator::generate", "chacha20/src/rng.rs"),
    "pos": ("get/set_word_pos, get/set_block_pos, set_stream, get_stream", "chacha20/src/rng.rs"),
    "ser": ("serialize_state, deserialize_state", "chacha20/src/rng.rs"),
    "eq": ("PartialEq::eq", "chacha20/src/rng.rs"),
    "dbg": ("Debug impls", "chacha20/src/lib.rs, chacha20/src/rng.rs, hc-256/src/lib.rs"),
    "zero": ("Drop impls, Generator::drop", "*/src/lib.rs, chacha20/src/rng.rs"),
}

LVL = ("Bounded symbolic execution of the compiled code (LLVM IR after rustc's optimiser) against a reference model, z3 "
       "deciding over all values of the symbolic inputs; sequence shapes and lengths are the stated bounds. Trusts rustc's "
       "IR generation, the executor's instruction semantics (validated by a native run per case) and z3.")
KEYS = "every key, nonce and message byte is symbolic; "
OUT_SEQ = "longer messages and other call sequences; bugs in the trusted toolchain"

P = {}


def prop(id, title, statement, over, text, why, files, mech, bounds, outside=OUT_SEQ, assumptions=(), observe=None, be=False):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds,
                 outside=outside, assumptions=list(assumptions), observe=observe or [])


prop("C01", "ChaCha8, ChaCha12 and ChaCha20 produce the specified keystream",
     "For every 256-bit key, 96-bit nonce and 32-bit block counter, the ChaCha8, ChaCha12 and ChaCha20 ciphers produce "
     "exactly the 64-byte keystream block that RFC 8439 defines with 8, 12 and 20 rounds, and encryption is its XOR with "
     "the message. This holds on every x86 backend: portable, SSE2, AVX2 and AVX-512.",
     ["inputs", "configurations"], "all keys, nonces, counters and messages; all backends",
     "The tests compare a few published vectors at a few counters on the backend the machine happens to select.",
     CH, ["chacha-new", "qr", "soft", "sse2", "avx2", "avx512", "chacha-disp"],
     KEYS + "the counter is symbolic at block level; up to 130 bytes per call; 4 backends (thorough: also the 3 forced "
     "backends and the AVX-512 build on lesser CPUs)")
prop("C02", "Multi-block ChaCha output equals block-by-block output on every backend",
     "Producing any number of ChaCha keystream blocks in one request gives exactly the concatenation of the single blocks "
     "for consecutive counter values, whatever the starting counter, and leaves the block position advanced by exactly that "
     "number. It holds on the portable, SSE2, AVX2 and AVX-512 backends, for the full parallel groups and every remainder.",
     ["inputs", "configurations"], "all keys, nonces and starting counters (wrap-around included); block counts up to the bound",
     "Tests use one or two lengths starting near counter 0; remainder handling and lane counters near a carry are not reached.",
     CH, ["sse2", "avx2", "avx512", "soft", "chacha-disp"],
     KEYS + "symbolic starting counter; 0 to 13 blocks (AVX-512: 0 to 48; thorough: up to 65) and 257 blocks per call (thorough: 530)")
prop("C03", "64-bit-counter ChaCha carries into the high counter word correctly",
     "The original ChaCha variant (64-bit nonce, 64-bit block counter) and the 4-block generator behind the random number "
     "generators produce, from every 64-bit counter value, the blocks for exactly the next consecutive counter values modulo "
     "2^64, carry between the two counter words included. The nonce or stream words never change. The generator with the "
     "96-bit-nonce variant counts modulo 2^32 in the same way.",
     ["inputs", "configurations"], "all keys, nonces and 64-bit counters; all backends",
     "Tests start at counter 0; a carry out of the low word needs a counter within a few blocks of a multiple of 2^32.",
     CH + ["chacha20/src/legacy.rs", "chacha20/src/rng.rs"], ["var", "soft", "sse2", "avx2", "avx512", "gen"],
     KEYS + "symbolic 64-bit counter; up to 5 blocks (AVX-512: 31; thorough: 33) and 257 blocks per call, 3 generator calls")
prop("C04", "XChaCha uses the HChaCha subkey and the last 64 nonce bits",
     "HChaCha with 8, 12 or 20 rounds returns exactly the specified 256-bit subkey for every key and 128-bit input, and "
     "XChaCha8/12/20 with a 192-bit nonce produces exactly the ChaCha keystream under that subkey with the nonce made of four "
     "zero bytes and the last 8 nonce bytes, at every block position.",
     ["inputs", "configurations"], "all keys, nonces and positions; all backends",
     "Tests check single published vectors.",
     CH + ["chacha20/src/xchacha.rs"], ["hchacha", "chacha-new", "qr"],
     KEYS + "symbolic block position; up to 384 bytes")
prop("C05", "Salsa20/8, /12 and /20 produce the specified keystream",
     "For every 256-bit key, 64-bit nonce and 64-bit block counter, Salsa20 with 8, 12 and 20 rounds produces exactly the "
     "keystream of the Salsa20 specification, and consecutive blocks use consecutive counters modulo 2^64.",
     ["inputs"], "all keys, nonces, counters and messages",
     "Tests compare ECRYPT vectors with low counters.",
     SA, ["salsa", "salsasoft"], KEYS + "symbolic 64-bit counter; up to 6 blocks per call (thorough: 20; Salsa20/8 and thorough: 258 blocks)")
prop("C06", "XSalsa20 uses the HSalsa20 subkey and the last 64 nonce bits",
     "HSalsa with 8, 12 or 20 rounds returns exactly the specified subkey for every key and 128-bit input, and the XSalsa "
     "ciphers produce the Salsa keystream under that subkey with the last 8 bytes of the 192-bit nonce, at every position.",
     ["inputs"], "all keys, nonces and positions", "Tests check single published vectors.",
     SA + ["salsa20/src/xsalsa.rs"], ["hsalsa", "salsa", "salsasoft"], KEYS + "symbolic block position; up to 140 bytes, and 257 blocks in one call")
prop("C07", "RC4 produces the RC4 keystream for every key length from 1 to 256",
     "For every key of 1 to 256 bytes, RC4 produces exactly the standard key schedule and output sequence, across calls of "
     "any length and past the 256-byte period of its index.",
     ["inputs"], "all keys of 1 to 256 bytes, all messages", "Tests use a handful of keys and short outputs.",
     ["rc4/src/lib.rs"], ["rc4"],
     "symbolic key and message bytes; quick: 15 key lengths, thorough: all 256; up to 600 bytes of keystream (thorough: 1100)")
prop("C08", "Rabbit produces the keystream of RFC 4503",
     "For every 128-bit key and 64-bit IV, and for every key used without IV, Rabbit produces exactly the keystream of "
     "RFC 4503, the carry between counter updates included, over any number of blocks.",
     ["inputs"], "all keys, IVs and messages", "Tests check the RFC's few vectors of 48 bytes.",
     ["rabbit/src/lib.rs"], ["rabbit"], KEYS + "up to 160 bytes (thorough: 600) and 257 blocks per call")
prop("C09", "HC-256 produces the specified keystream",
     "For every 256-bit key and 256-bit IV, HC-256 produces exactly the specified keystream: the table expansion, the 4096 "
     "warm-up steps, and the output words through both table-update phases and their wrap-around.",
     ["inputs"], "all keys, IVs and messages", "Tests check a few vectors of 64 bytes; they never pass one table phase.",
     ["hc-256/src/lib.rs"], ["hc"], KEYS + "2052 words, past both table refreshes (thorough: 4122 words, two cycles)")
prop("C10", "All forms of encryption agree, and decryption undoes encryption",
     "Encrypting in place, from one buffer to another, through the combined in/out form, or XORing the message with written "
     "keystream gives the same bytes for every cipher, position and length, whether the fallible or the panicking call is "
     "used. Applying the same keystream position twice restores the message, and source buffers, keys and nonces are not "
     "modified.",
     ["inputs", "programs", "configurations"], "all keys, nonces, messages; every call form",
     "Tests mostly use the in-place form on one length.",
     ALLF, ["chacha-disp", "sse2", "avx2", "avx512", "salsasoft", "rc4", "rabbit", "hc"],
     KEYS + "every call form, up to 300 bytes per call (1100 on AVX-512)")
prop("C11", "Splitting a message over calls never changes the result",
     "However a message is divided into successive calls, of any sizes including empty ones and of any mix of call forms, "
     "each cipher produces the same bytes as for one call over the whole message.",
     ["inputs", "programs", "configurations"], "all keys, nonces, messages; call sequences",
     "Tests try a few chunk sizes on fixed data.",
     ALLF, ["sse2", "avx2", "avx512", "soft", "salsasoft", "rc4", "rabbit", "hc"],
     KEYS + "5 to 8 split patterns per cipher around the block and parallel-group sizes, up to 3190 bytes; ChaCha8, Salsa20/8 and Rabbit (thorough: all): one call over 257 blocks")
prop("C12", "Seeking to any position gives that part of the keystream",
     "After seeking a ChaCha, XChaCha or Salsa cipher to any byte position within the keystream, the next bytes are the "
     "keystream bytes from exactly that position, and the reported position is exact before and after any amount of output. "
     "Seeks may go forwards or backwards, land inside a block, and use any integer type that can hold the position.",
     ["inputs", "programs", "configurations"], "all positions, keys and nonces; seek/read/query sequences",
     "Tests seek to a few small offsets.",
     CH + ["chacha20/src/xchacha.rs"] + SA + ["salsa20/src/xsalsa.rs"], ["var", "chacha-disp", "salsa", "hsalsa", "hchacha"],
     "symbolic block index (full width of the seek type), byte offsets 0,1,31,32,63 (thorough: all 64); keys and nonces symbolic",
     outside="signed seek types; longer sequences of seeks")
prop("C13", "The keystream ends before the block counter repeats",
     "A seekable cipher yields keystream up to exactly (2^w - 1) blocks of 64 bytes, w being its counter width (32 or 64 bits), "
     "and every request that would go beyond, and every seek past that end, is refused; the panicking forms panic. Requests "
     "that fit, up to the very last byte, succeed, and remaining-length queries agree; the non-seekable ciphers never refuse.",
     ["inputs", "programs", "configurations"], "all positions and lengths around the end; every call form",
     "Tests have one or two end-of-stream positions on one cipher.",
     CH + ["chacha20/src/xchacha.rs"] + SA, ["var", "salsa", "avx2", "sse2", "avx512"],
     "symbolic positions with several lengths, and concrete positions within 1300 bytes of the end for every call form (20-round ciphers: 257 blocks)")
prop("C14", "The ChaCha generators output exactly the ChaCha keystream words in order",
     "ChaCha8Rng, ChaCha12Rng and ChaCha20Rng return the words of the 64-bit-counter ChaCha keystream under the seed as key "
     "and the stream number as nonce, in order: a 32-bit request takes one word, a 64-bit request two words low first (across "
     "the internal buffer's end as well), a byte request the little-endian bytes of whole words, discarding the rest of the last.",
     ["inputs", "programs", "configurations"], "all seeds and streams; request sequences",
     "Tests compare fixed vectors for a few seeds and sequences.",
     RNG + CH[3:], ["gen", "soft", "sse2", "avx2"],
     "symbolic seed, stream and word position; mixed requests of up to 515 bytes, 1100 words in a row, 4400 bytes at once; thorough: every buffer phase")
prop("C15", "Generator positions and streams can be read and set exactly",
     "For the ChaCha generators the word position, block position and stream number read back exactly what was set or reached "
     "by output, modulo 2^68 words, from every position and buffer phase, and output after setting them is the keystream from "
     "there. Setting the stream resets the position to zero and setting a position leaves seed and stream alone; the seed read "
     "back is always the one given.",
     ["inputs", "histories", "configurations"], "all seeds, streams and 68-bit positions; operation sequences",
     "Tests set a few positions and streams.",
     RNG, ["pos", "gen"],
     "symbolic seed, stream, 124-bit word position or 64-bit block position; all 16 word offsets; up to 129 words of output in between")
prop("C16", "A serialized generator resumes exactly where it stopped",
     "Serializing a ChaCha generator at any point and deserializing yields a generator with the same seed, stream, position "
     "and all later output; the 49 bytes are seed, stream and position in little-endian order. Every 49-byte string is accepted, "
     "the top 4 bits being ignored.",
     ["inputs", "histories", "configurations"], "all seeds, streams, positions and 49-byte strings",
     "Tests serialize one generator at one point.",
     RNG, ["ser", "pos"], "symbolic seed, stream, position and serialized bytes; after 0,1,17,63,64,65 words (thorough: 0 to 129)")
prop("C17", "Generators are equal exactly when seed, stream and position are equal",
     "Two ChaCha generators of one type compare equal if and only if their seeds, streams and word positions are equal, "
     "whatever their internal buffers hold, and inequality is its negation.",
     ["inputs", "histories"], "all pairs of seeds, streams and positions reached by the listed histories",
     "Tests compare a few pairs.",
     RNG, ["eq", "pos"], "symbolic seeds, streams and positions of both generators; histories of up to 70 words")
prop("C18", "With zeroize enabled a dropped object keeps no secret-dependent byte",
     "When the zeroize feature is on, after dropping any cipher, core or generator no byte of the memory it occupied depends on "
     "the key, nonce, seed, message, position or keystream any more, buffered keystream included, whatever it was used for before.",
     ["inputs", "histories", "configurations"], "all keys, nonces, data, positions; usage histories",
     "No test inspects dropped memory.",
     ALLF + ["chacha20/src/rng.rs"], ["zero"],
     "histories: unused, 70 bytes, ending at a block edge, after a seek, generator after one word, 300 bytes, moved; all key, nonce, data "
     "and position bits symbolic; a witness checks that the object held secrets before the drop",
     outside="copies on the stack, in registers or left by moves; features other than zeroize in both crates",
     assumptions=["the chacha20 crate's zeroize feature is combined with cipher/zeroize, which wipes the wrapper's buffer"])
prop("C19", "No use of the public API panics, overflows or leaves its buffers",
     "With a valid key, nonce and operation, no cipher or generator call panics, overflows or reads or writes a byte outside "
     "the buffers passed to it, for any position, data, length (zero included) and buffer alignment, on any backend; refused "
     "calls return an error instead.",
     ["inputs", "programs", "configurations"], "all positions, keys, data; lengths and alignments",
     "Tests run aligned buffers of a few sizes; raw-pointer vector code is only as safe as its offsets.",
     ALLF + ["chacha20/src/rng.rs"], ["soft", "sse2", "avx2", "avx512", "salsasoft", "pos", "rc4"],
     "every memory access of every path bounds-, alignment- and initialisation-checked; overflow checks on; symbolic positions; lengths up to "
     "17 blocks + 5; buffers at odd alignments")
prop("C20", "ChaCha, Salsa and Rabbit run in constant time",
     "For ChaCha, XChaCha, HChaCha, Salsa, XSalsa, HSalsa, Rabbit and the ChaCha generators, no branch and no memory address "
     "depends on the key, seed, nonce, stream or message bytes: two runs with the same lengths and positions take the same path "
     "and touch the same addresses.",
     ["inputs", "programs", "configurations"], "all pairs of secrets; the listed call sequences",
     "Timing is not observed by any test.",
     ALLF[:-3] + ["rabbit/src/lib.rs", "chacha20/src/rng.rs"], ["soft", "sse2", "avx2", "avx512", "salsasoft", "rabbit", "gen"],
     "two-run non-interference of branches and addresses at LLVM IR level; up to 375 bytes; secrets symbolic, positions public",
     outside="RC4 and HC-256 (table lookups by design); instruction timing and the code generator's choices; comparison of generators")
prop("C21", "Debug output reveals nothing about keys or state",
     "The debug representation of every ChaCha cipher, core and generator and of HC-256 is a fixed text: it is the same for all "
     "keys, nonces, seeds, messages and positions.",
     ["inputs", "configurations"], "all keys, nonces, data; plain and pretty format",
     "Tests format at most one object.",
     ["chacha20/src/lib.rs", "chacha20/src/rng.rs", "chacha20/src/xchacha.rs", "hc-256/src/lib.rs"], ["dbg"],
     "two-run independence of the text and its length; objects new, used for a few bytes, and at symbolic positions and streams; both formats",
     outside="what the wrapper type of the cipher crate prints itself")
prop("C22", "Constructors accept exactly the documented key and nonce lengths",
     "Building a cipher from slices succeeds exactly when key and nonce have the documented lengths (RC4: any key of 1 to 256 "
     "bytes) and otherwise returns an error without panicking or reading the slices, whatever their contents.",
     ["inputs"], "all lengths up to the bound, all contents",
     "Tests use valid lengths only.",
     ALLF, ["rc4", "chacha-new", "salsa", "rabbit", "hc"],
     "key and nonce slices of every length below 2^63 (a refused slice must not be read); RC4 refuses 0 and every length above 256; "
     "RC4 acceptance for 17 lengths (thorough: all 256)")
prop("C23", "A Salsa core built from raw words applies the core function to them",
     "A Salsa core created from 16 arbitrary state words produces the Salsa core function of exactly those words, then of the "
     "same words with the 64-bit counter in words 8 and 9 advanced by one per block, and reports that counter as its position.",
     ["inputs"], "all 2^512 states", "No test uses it except through scrypt elsewhere.",
     SA, ["salsa", "salsasoft"], "symbolic 16 words; 1, 2 and 5 blocks (thorough: up to 17)")
prop("C24", "Two objects never influence each other",
     "Interleaving calls on two ciphers or generators gives each exactly the output it has alone, whatever their keys, nonces "
     "and data.",
     ["inputs", "schedules", "configurations"], "all keys and nonces of both; interleavings of calls",
     "Tests use one object at a time.",
     ALLF + ["chacha20/src/rng.rs"], ["chacha-disp", "rc4", "rabbit", "hc", "gen"],
     KEYS + "interleavings of 3 to 6 calls in one thread; pairs of the same type and of different types (8 and 20 rounds, "
     "and the extended-nonce ciphers), with different and with the same key and nonce",
     outside="threads (the crates share no mutable state but the CPU-feature cache)")
prop("C25", "Other architectures compute the same results",
     "On 64-bit ARM (NEON, or big-endian mode), 32-bit x86 (every backend) and a big-endian 64-bit target, all ciphers and generators give the same bytes, "
     "positions and end-of-stream behaviour as specified.",
     ["inputs", "configurations"], "all keys, nonces, messages and counters; four further targets",
     "The tests here run on x86-64 only.",
     ALLF + ["chacha20/src/backends/neon.rs", "chacha20/src/rng.rs"], ["neon", "soft", "sse2", "avx2", "gen", "salsasoft"],
     KEYS + "symbolic counters; up to 455 bytes; cross-compiled with the standard library's core from source; counterexamples are replayed by "
     "interpreting the same IR concretely (no such hardware here)")
prop("C26", "Release builds behave like checked builds",
     "Built without overflow checks and debug assertions, all ciphers and generators still produce the specified output, "
     "positions and end-of-stream refusals.",
     ["inputs", "configurations"], "all keys, nonces, positions; release profile",
     "The test suite runs with checks on.",
     ALLF + ["chacha20/src/rng.rs"], ["var", "salsa", "soft", "sse2", "avx2", "avx512", "pos"],
     KEYS + "symbolic positions; up to 1091 bytes")
prop("C27", "One-shot use of a core may use the last block and no more",
     "Consuming a core to process a final message gives the keystream from the current block on, and is allowed exactly when "
     "no more than one block beyond the reusable keystream is needed, that is, up to and including the block with the largest "
     "counter value when the message does not fill more than it; otherwise it is refused.",
     ["inputs", "configurations"], "all counters, keys, messages; lengths up to the bound",
     "Tests do not use the one-shot form near the end.",
     CH + SA + ["salsa20/src/xsalsa.rs"] + OTHER[1:], ["var", "salsa", "avx512", "avx2"],
     KEYS + "symbolic counter; lengths 0,1,63,64,65,128,300 (AVX-512: also 1024 and 1100)")
prop("C28", "A refused call leaves data, position and keystream untouched",
     "When a call is refused, for lack of keystream, an unreachable seek position or buffers of different lengths, no byte of "
     "the buffers changes and the position stays the same, so that later calls continue as if the refused call had not been made.",
     ["inputs", "programs", "configurations"], "all keys, nonces, data; every call form",
     "Tests look at the error only.",
     ALLF, ["var", "chacha-disp", "salsa", "rc4"],
     KEYS + "refusals at and inside a block, each call form, with further calls after the refusal")
prop("C29", "Only instructions the processor was found to support are executed",
     "Whatever CPU features the processor and operating system report, every ChaCha cipher and generator executes code that "
     "needs an instruction-set extension only if that extension is part of the compilation target or was detected at run "
     "time, so that it never dies of an illegal instruction; and its output is the specified one whichever code runs.",
     ["inputs", "configurations"], "all values of the CPUID leaves and of XCR0; all keys, nonces, counters, messages",
     "The tests run on one machine, whose features are a superset of what is used.",
     CH + ["chacha20/src/rng.rs"], ["chacha-disp", "sse2", "avx2", "avx512", "gen"],
     "symbolic CPUID leaves 1 and 7 and XCR0, assumed consistent (a processor with AVX2 has SSE4.1, and so on); x86-64 with "
     "run-time detection, the same with the AVX-512 option, a 32-bit target without SSE2 (i586), and the SSE2 backend chosen "
     "at compile time (thorough: all forced backends, i686); up to 1088 bytes in one call; a function may use exactly what "
     "its target-features attribute says; counterexamples are replayed by interpreting the same IR on the processor found",
     outside="processors with inconsistent CPUID; ARM; instructions emitted by inline assembly")
prop("C30", "Optional features change no result",
     "Whichever of the optional features cipher, legacy, xchacha, rng and zeroize the crates are built with, everything that is "
     "available gives the specified bytes, positions and end-of-stream refusals.",
     ["inputs", "configurations"], "all keys, nonces, seeds, messages, positions; builds with subsets of the features",
     "The test suite is run with few feature sets, and never compares them.",
     ALLF + ["chacha20/src/rng.rs"], ["var", "gen", "pos", "ser", "hchacha", "zero", "salsa", "rabbit", "hc", "rc4"],
     KEYS + "symbolic positions and streams; feature sets: rng; rng+zeroize; rng+legacy+xchacha+zeroize; cipher; "
     "cipher+zeroize; cipher+rng; legacy; legacy+zeroize; xchacha; xchacha+zeroize; the other crates with zeroize; AVX2 and "
     "portable backends (thorough: all)")
