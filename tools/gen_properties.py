#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=False):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: anchors["state"] = [{"name": s, "meaning": "private representation", "where": files[0]} for s in state]
    anchors["observe_at"] = observe or []
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

S = "src/milo/"
D = S + "primitive/detail/"
prop("C01", "base16 encoding is exact hex and decoding inverts it",
 "For every byte string x, codec base_16 encode writes exactly 2*|x| characters, the lowercase hexadecimal digits of x high nibble first, returns 2*|x| = encode_size, and writes nothing else; decoding that text returns |x|, no error, and x again.",
 ["inputs"], "every byte string of every length (including 0)",
 "Vectors fix a few strings; the claim is about all lengths and all 256 byte values at every position, and about memory outside the result.",
 [D+"codec/base_16.h", S+"primitive/codec/apie.h"],
 [("encode", D+"codec/base_16.h codec_base_16::encode"), ("decode", D+"codec/base_16.h codec_base_16::decode")],
 observe=["codec::apie<codec::base_16<>>::encode", "codec::apie<codec::base_16<>>::decode"])
prop("C02", "base16 decoding accepts exactly hex text",
 "For every character string s, codec base_16 decode succeeds iff every character is one of 0-9a-fA-F (an odd count reads as if a leading 0 were there), then writes exactly ceil(|s|/2) = decode_size bytes, the value of s, and returns that count; otherwise it reports error codec_base_16_decode (by reference or by throwing milo::error), never writes past decode_size bytes, and returns no more than the number of bytes it has decoded.",
 ["inputs"], "every character string of every length, all 256 character values",
 "Acceptance is a statement about every character value at every position, for even and odd lengths; tests sample a few invalid strings.",
 [D+"codec/base_16.h", S+"primitive/codec/apie.h", S+"literal.h"],
 [("decode", D+"codec/base_16.h codec_base_16::decode"), ("decode_size", D+"codec/base_16.h codec_base_16::decode_size")],
 observe=["codec::apie<codec::base_16<>>::decode", "codec::apie<codec::base_16<>>::decode_size"])
prop("C03", "base64 encoding is RFC 4648 and decoding inverts it",
 "For every byte string x, codec base_64 encode writes exactly encode_size = 4*ceil(|x|/3) characters, the RFC 4648 base64 text of x with '=' padding, returns that count, reads nothing outside x and writes nothing else; decoding that text gives no error and x again.",
 ["inputs"], "every byte string of every length (including 0)",
 "All lengths modulo 3 with all byte values, plus the frame around the buffers, cannot be sampled.",
 [D+"codec/base_64.h", S+"primitive/codec/apie.h"],
 [("encode", D+"codec/base_64.h codec_base_64::encode"), ("encode_size", D+"codec/base_64.h codec_base_64::encode_size"), ("decode", D+"codec/base_64.h codec_base_64::decode")],
 observe=["codec::apie<codec::base_64<>>::encode", "codec::apie<codec::base_64<>>::decode"])
prop("C04", "base64 decoding rejects every malformed text",
 "For every character string s, codec base_64 decode succeeds iff |s| is a multiple of 4, all characters are in the base64 alphabet except that the last one or two of s may be '=' (the next-to-last only if the last is), and then writes exactly decode_size bytes, the RFC 4648 value, and returns that count; otherwise it reports codec_base_64_decode, writes no more than decode_size bytes and returns the number of bytes decoded before the offending group.",
 ["inputs"], "every character string of every length, all 256 character values",
 "An accepted invalid character at an arbitrary position, or a misplaced '=', is one input out of an unbounded set.",
 [D+"codec/base_64.h", S+"primitive/codec/apie.h"],
 [("decode", D+"codec/base_64.h codec_base_64::decode"), ("decode_size", D+"codec/base_64.h codec_base_64::decode_size")],
 observe=["codec::apie<codec::base_64<>>::decode", "codec::apie<codec::base_64<>>::decode_size"])

hist = "every message of every length, split into any sequence of update calls (including empty ones)"
for (i, t, nm, f) in (("H01", "SHA-1 equals FIPS 180-4 for every message and split", "sha_1_160", "sha_1_160"),
                      ("H02", "SHA-224 and SHA-256 equal FIPS 180-4 for every message and split", "sha_2_224 and sha_2_256", "sha_2_256"),
                      ("H03", "SHA-384, SHA-512, SHA-512/t equal FIPS 180-4 for every message", "sha_2_384, sha_2_512, sha_2_512_224 and sha_2_512_256", "sha_2_512")):
    prop(i, t,
     f"For hash {nm}: after initialize and any sequence of update calls, digest() returns the FIPS 180-4 digest of the concatenation of the updated bytes, however they were split, with the portable (software) block function and the runtime-dispatched one alike. The object reads only the given message ranges and writes only itself and the digest output.",
     ["inputs", "histories"], hist,
     "Tests feed a few vectors in a few chunkings; the padding and buffering logic has block-size many boundary cases per call and the message length is unbounded (the length field is the 64/128-bit bit count).",
     [D+f"hash/sha/{f}.h", D+f"hash/sha/{f}_impl_sw.h", D+"hash/impl.h", S+"internal/update.h", S+"internal/memory.h", S+"primitive/hash/apie.h"],
     [("compression", D+f"hash/sha/{f}_impl_sw.h blocks"), ("streaming", S+"internal/update.h update_block_soak"), ("padding", D+f"hash/sha/{f}.h finalize")],
     state=["m_state", "m_processed_bytes", "m_buffer", "m_buffer_size"], observe=["hash::apie<...>::update", "hash::apie<...>::digest"])
prop("H04", "SHA-NI block functions equal the specification",
 "The x86-64 SHA-NI assembly block functions for SHA-1 and SHA-256 turn every (state, block sequence of any length) into the FIPS 180-4 compression of those blocks, the same as the software block function, touch only the state array, read only the given blocks and preserve the callee-saved registers.",
 ["inputs"], "every 160/256-bit chaining state, every sequence of n >= 1 blocks",
 "The assembly is only exercised by vectors on one machine; equality must hold for every state and block count.",
 [D+"hash/sha/sha_1_160_impl_hw_x86_64.asm", D+"hash/sha/sha_2_256_impl_hw_x86_64.asm", D+"hash/sha/sha_1_160_impl_hw_x86_64.h", D+"hash/sha/sha_2_256_impl_hw_x86_64.h"],
 [("sha1", D+"hash/sha/sha_1_160_impl_hw_x86_64.asm"), ("sha256", D+"hash/sha/sha_2_256_impl_hw_x86_64.asm")],
 observe=["hash::apie<hash::sha_1_160<option::impl_enforce<hash_sha_1_160_impl_hw_x86_64_ni>>>", "hash::apie<hash::sha_2_256<option::impl_enforce<hash_sha_2_256_impl_hw_x86_64_ni>>>"])
prop("H05", "hash digest(): truncation, repeatability and frame",
 "For every hash and every requested size n, hash::apie::digest writes exactly min(n, digest_size) bytes, the prefix of the full digest, returns that count and writes nothing else (a static container caps it at its size, a dynamic one is resized to it); calling digest again on the same object returns the same bytes.",
 ["inputs", "histories"], "every requested size from 0 up, every sequence of digest calls after any message",
 "All sizes, including ones beyond the digest size and not a multiple of the word size, and repeated calls, are not enumerated by vectors.",
 [S+"primitive/hash/apie.h", S+"internal/memory.h", S+"internal/utility.h", D+"hash/sha/sha_1_160.h", D+"hash/sha/sha_2_256.h", D+"hash/sha/sha_2_512.h"],
 [("digest", S+"primitive/hash/apie.h apie::digest"), ("memory_copy_be", S+"internal/memory.h")],
 state=["m_finalized"], observe=["hash::apie<...>::digest"])
prop("M01", "HMAC equals RFC 2104 for every key, message and split",
 "For mac hmac over every hash: initialize(key) with a key of any length (empty, up to a block, longer than a block) followed by any sequence of update calls makes digest() return HMAC(key, concatenated message) as in RFC 2104, given only that the hash is correct; re-initializing the object with another key starts afresh.",
 ["inputs", "histories"], "every key length and content, every message and split, every hash block/digest size in the library",
 "The key-length boundary (block size) and hashing of long keys have a case per length and per hash; vectors cover a handful.",
 [D+"mac/hmac/hmac.h", S+"primitive/mac/apie.h"],
 [("key schedule", D+"mac/hmac/hmac.h initialize"), ("outer hash", D+"mac/hmac/hmac.h finalize")],
 state=["m_buffer", "m_hash"], observe=["mac::apie<mac::hmac<...>>::initialize/update/digest"])
prop("M02", "Poly1305 equals RFC 8439 for every key, message and split",
 "For mac poly_1305: with any 32-byte key and any sequence of update calls, digest() returns the RFC 8439 one-time authenticator of the concatenated message (arithmetic modulo 2^130-5 with clamped r, then plus s modulo 2^128); no intermediate limb ever overflows.",
 ["inputs", "histories"], "every key, every message of every length and split",
 "Carry and final-reduction corner cases occur for a negligible fraction of inputs; random tests essentially never reach them.",
 [D+"mac/poly/poly_1305.h", D+"mac/poly/poly_1305_impl_sw.h", S+"internal/update.h", S+"primitive/mac/apie.h"],
 [("block", D+"mac/poly/poly_1305_impl_sw.h process"), ("final reduction", D+"mac/poly/poly_1305.h finalize"), ("clamp", D+"mac/poly/poly_1305.h initialize")],
 state=["m_acc", "m_key_r", "m_key_s", "m_buffer"], observe=["mac::apie<mac::poly_1305<>>::initialize/update/digest"])
prop("M03", "short and long MAC and cipher keys and IVs: padded or ignored",
 "For poly_1305 and chacha_20, key and IV material of any length behaves as documented: bytes beyond key_size/iv_size are ignored and missing bytes read as zero, so initialize(k) equals initialize of k truncated or zero-padded to the nominal size; nothing outside the given range is read.",
 ["inputs"], "every key and IV length from 0 up",
 "Tests use nominal lengths only; each short length is its own case for the word loader.",
 [S+"internal/memory.h", D+"mac/poly/poly_1305.h", D+"cipher/chacha/chacha.h", D+"aead/chacha/chacha_20_poly_1305.h"],
 [("memory_init", S+"internal/memory.h memory_init*")],
 observe=["mac::apie<mac::poly_1305<>>::initialize", "cipher::apie<cipher::chacha_20<>>::initialize"])
prop("K01", "HKDF equals RFC 5869 however the output is drawn",
 "For kdf hkdf over every HMAC: after initialize(ikm, salt, info), any sequence of derive calls asking for up to 255*HashLen bytes in total writes consecutive pieces of the RFC 5869 output T(1)|T(2)|..., exactly as many bytes as asked, and nothing else, given only that the HMAC is correct.",
 ["inputs", "histories"], "all ikm/salt/info contents and lengths, all sequences of derive sizes totalling at most 255*HashLen",
 "Every split of the output stream relative to the block boundary is a separate history.",
 [D+"kdf/hkdf.h", S+"primitive/kdf/apie.h"],
 [("extract", D+"kdf/hkdf.h initialize"), ("expand", D+"kdf/hkdf.h expand"), ("stream", D+"kdf/hkdf.h derive")],
 state=["m_counter", "m_buffer", "m_buffer_size", "m_prk"], observe=["kdf::apie<kdf::hkdf<...>>::initialize/derive"])
prop("K02", "PBKDF2 equals RFC 8018 however the output is drawn",
 "For kdf pbkdf_2 over every HMAC: after initialize(password, salt, iterations >= 1), any sequence of derive calls writes consecutive pieces of the RFC 8018 PBKDF2 output (block i = U_1 xor ... xor U_c), exactly as many bytes as asked, and nothing else, given only that the HMAC is correct.",
 ["inputs", "histories"], "all passwords, salts, iteration counts, and sequences of derive sizes (fewer than 2^32-1 blocks)",
 "Iteration counts and output splits are unbounded; tests fix a few.",
 [D+"kdf/pbkdf_2.h", S+"primitive/kdf/apie.h"],
 [("F", D+"kdf/pbkdf_2.h expand"), ("stream", D+"kdf/pbkdf_2.h derive")],
 state=["m_counter", "m_buffer", "m_buffer_size", "m_iterations"], observe=["kdf::apie<kdf::pbkdf_2<...>>::initialize/derive"])
prop("S01", "ChaCha20 keystream is RFC 8439 for every chunking and backend ratio",
 "For cipher chacha_20: with any key and 16-byte IV (little-endian 32-bit initial counter, then nonce), any sequence of encrypt/decrypt calls of any sizes, in place or out of place, xors consecutive data with consecutive bytes of the RFC 8439 keystream (block counter modulo 2^32) whichever backend and hence buffer ratio is active, writes exactly the given number of bytes, and decrypt inverts encrypt.",
 ["inputs", "histories", "configurations"], "every key/IV, every sequence of call sizes, every backend block ratio (1, 4, 8)",
 "Leftover keystream handling depends on position in a 64..512-byte buffer and call size; the sequences are unbounded.",
 [D+"cipher/chacha/chacha.h", D+"cipher/chacha/chacha_impl_sw.h", D+"cipher/impl.h", S+"internal/update.h", S+"primitive/cipher/apie.h"],
 [("block", D+"cipher/chacha/chacha_impl_sw.h stream"), ("buffering", S+"internal/update.h update_block_prod_xor")],
 state=["m_state", "m_buffer", "m_buffer_size"], observe=["cipher::apie<cipher::chacha_20<>>::encrypt/decrypt"])
prop("S02", "SSSE3 and AVX2 ChaCha20 equal the RFC 8439 block function",
 "The x86-64 SSSE3 and AVX2 ChaCha20 transform and generate functions produce, for every state and every number of blocks, exactly the RFC 8439 blocks with counter state[12] + i modulo 2^32 (xored with the input for transform, in place allowed), return the number of 64-byte blocks produced, read and write exactly that range and preserve the state and the callee-saved registers.",
 ["inputs"], "every 512-bit state (including counters that wrap), every block count >= 1",
 "Lane and counter handling differ by block index and wrap-around; vectors use small counters on one machine.",
 [D+"cipher/chacha/chacha_impl_hw_x86_64.asm", D+"cipher/chacha/chacha_impl_hw_x86_64.h"],
 [("ssse3/avx2", D+"cipher/chacha/chacha_impl_hw_x86_64.asm")],
 observe=["cipher::apie<cipher::chacha_20<option::impl_enforce<...>>>"])
prop("A01", "ChaCha20-Poly1305 sealing equals RFC 8439 for every chunking",
 "For aead chacha_20_poly_1305: with any key, nonce, associated data and plaintext, each supplied in any number of aad/encrypt calls (including none), the ciphertext and the 16-byte digest() equal RFC 8439 section 2.8, given only that the cipher and the MAC are correct; decrypt with the same inputs returns the plaintext and computes the same digest.",
 ["inputs", "histories"], "all keys, nonces, aad and plaintext lengths and splits, including aad only, plaintext only and both empty",
 "The pad16 and length fields have 16x16 residue cases and several call-order histories; vectors cover a few.",
 [D+"aead/chacha/chacha_20_poly_1305.h", S+"primitive/aead/apie.h"],
 [("mac key", D+"aead/chacha/chacha_20_poly_1305.h initialize"), ("padding", D+"aead/chacha/chacha_20_poly_1305.h aadover/finalize"), ("order", S+"primitive/aead/apie.h do_finalize*")],
 state=["m_aad_processed_size", "m_edd_processed_size", "m_finalized_aad", "m_finalized"], observe=["aead::apie<...>::aad/encrypt/decrypt/digest"])
prop("A02", "AEAD verification accepts exactly the right tag and always reports",
 "For aead apie verify and the one-shot decrypt functions: verification succeeds iff the presented digest has exactly digest_size bytes and equals the computed one; otherwise the caller gets error aead_verify through the error reference, or, when no error argument is passed, a thrown milo::error that the caller can catch.",
 ["inputs"], "every tag of every length, every overload (pointer/container, error by reference/exception)",
 "A comparison that ignores some byte or length, or an overload that cannot throw, passes all vectors.",
 [S+"primitive/aead/apie.h", S+"internal/memory.h"],
 [("verify", S+"primitive/aead/apie.h apie::verify"), ("one-shot", S+"primitive/aead/apie.h decrypt"), ("memory_match", S+"internal/memory.h memory_match")],
 observe=["aead::apie<...>::verify", "aead::decrypt"])
prop("A03", "tag comparison runs in time independent of the contents",
 "AEAD verify of two tags of equal length executes the same sequence of branches and accesses the same addresses whatever the bytes of the computed and the presented tag are, up to the final accept/reject decision.",
 ["inputs"], "all pairs of 16-byte tags",
 "Timing independence is a statement about pairs of runs; functional tests cannot observe it.",
 [S+"internal/memory.h", S+"primitive/aead/apie.h"],
 [("memory_match", S+"internal/memory.h memory_match")],
 observe=["aead::apie<...>::verify"])
prop("X01", "destroyed objects leave no secret bytes behind",
 "After the destructor of any hash, mac, kdf, cipher or aead object runs, in optimized code too, every byte of the object that depended on key, message or derived data is zero.",
 ["inputs", "histories"], "every reachable object state of each primitive class",
 "Tests do not look at freed memory, and whether the compiler keeps the clearing stores is not visible from source.",
 [S+"internal/memory.h", D+"hash/sha/sha_2_256.h", D+"mac/hmac/hmac.h", D+"mac/poly/poly_1305.h", D+"kdf/hkdf.h", D+"kdf/pbkdf_2.h", D+"cipher/chacha/chacha.h"],
 [("memory_erase", S+"internal/memory.h memory_erase"), ("destructors", D+"*/")],
 observe=["~hash_sha_*", "~mac_*", "~kdf_*", "~cipher_chacha", "~aead_chacha_20_poly_1305"])
prop("X02", "objects can be reused and copied without cross-talk",
 "For every hash, mac, cipher, aead and kdf apie object: initialize() on an object in any reachable state makes it behave exactly as a newly constructed and initialized one; a copy (construction or assignment) taken at any point behaves exactly like the original under the same later calls, and using or finalizing one never changes the results of the other.",
 ["histories"], "every reachable state at the moment of re-initialization or copying, every later call sequence",
 "State that survives re-initialization only shows for particular previous histories.",
 [S+"primitive/hash/apie.h", S+"primitive/mac/apie.h", S+"primitive/cipher/apie.h", S+"primitive/aead/apie.h", S+"primitive/kdf/apie.h", D],
 [("initialize", D+"*::initialize")],
 observe=["*::apie::initialize", "copy/move constructors and assignments"])
prop("X03", "runtime dispatch only selects backends the CPU supports",
 "For every possible CPUID answer, the implementation selected for each dispatched algorithm is one whose declared instruction-set requirements are all reported by the CPU, the first such one in the declared order of preference, and the portable one when none is; every instruction a backend executes belongs to the baseline or to an instruction set the backend declares.",
 ["configurations"], "every combination of CPUID leaf contents",
 "The test machine has one CPU; a wrong feature bit only shows on another.",
 [S+"internal/arch/x86_64.h", S+"internal/arch/x86_64/cpuid.asm", S+"internal/impl.h", S+"internal/arch/any.h", S+"internal/arch.h"],
 [("check", S+"internal/arch/x86_64.h arch_x86_64_ise"), ("choose", S+"internal/impl.h impl_choose_hook")],
 observe=["impl_proxy::invoke", "arch_active::ise::check"])
prop("X04", "compile-time evaluation computes the same function",
 "The constant-evaluated branches (taken when an algorithm runs in a constant expression) of the hashes, macs, ciphers, kdfs, aead and codecs compute exactly the results that H01-H03, M01, M02, S01, A01 and C01-C04 require of the run-time branches, for every input.",
 ["inputs", "configurations"], "all inputs of the constexpr code paths",
 "Constant evaluation is only exercised on the vectors in static_asserts.",
 [S+"internal/memory.h", S+"internal/endian.h", S+"internal/impl.h", D],
 [("consteval switch", S+"internal MILO_INTERNAL_CONSTEVAL branches")],
 observe=["static constexpr use of the apie functions"])
prop("P01", "milo application selects exactly the matching algorithms",
 "The milo application's glob matcher used to select suites and algorithms accepts a name for a pattern iff the pattern matches in the usual sense ('*' any run, other characters themselves), terminates for every pattern, and the program exits with usage rather than crashing when run without arguments.",
 ["inputs"], "every pattern and name, every argument list",
 "Backtracking patterns are unbounded and the application has no unit tests.",
 ["app"], [("pattern", "app/include/milo/app/pattern.h"), ("main", "app/include/milo/app/run.h")],
 observe=["milo command line"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
