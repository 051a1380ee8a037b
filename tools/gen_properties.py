#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the JSON stays well-formed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
                 "mechanism":[dict(name=a,where=b) for a,b in mech],
                 "observe_at":list(observe),"hook_needed":hook}})
B39="src/bip39/"; B32="src/bip32/"; EK=B32+"extended_key/"
p("C01","A saved mnemonic restores the same wallet after any crash",
 "Once a wallet's mnemonic phrase has been durably saved, restoring from it in any later process, after any sequence of crashes, gives back exactly the entropy, phrase, seed and master key the wallet had when it was created. Those values are the ones BIP39 and BIP32 prescribe for the entropy, language and password (the one documented deviation: simplified Chinese phrases enter the seed computation GB18030-encoded). This holds for all five phrase lengths, both languages, every password, and whatever Unicode whitespace or compatibility form the words are re-entered in.",
 ["crash_points","histories","inputs"],
 "every wallet (5 lengths x 2 languages x all entropies x all passwords), every crash point before, during and after its creation and saving, every later sequence of restarts and re-entries of the phrase",
 "The tests pin 24 English vectors with one password inside one process; they never restart, never use Chinese, no other password, whitespace or Unicode form, and never cut a process short.",
 [B39+"mnemonic.rs",B39+"seed.rs",B39+"util.rs",B39+"crypto.rs",B39+"language.rs",EK+"extended_private_key.rs"],
 [("entropy -> words bit packing",B39+"util.rs BitIter"),("words -> entropy and checksum",B39+"mnemonic.rs phrase_to_entropy"),("NFKD and whitespace normalisation of re-entered words",B39+"mnemonic.rs from_phrase"),("PBKDF2-HMAC-SHA512 over phrase bytes and normalised salt",B39+"seed.rs Seed::new"),("master key from seed",EK+"extended_private_key.rs new")],
 [("phrase","the only durable state of a wallet","caller's storage")],
 ["Mnemonic::new / from_entropy / from_phrase","Mnemonic::phrase, entropy, as_bytes","Seed::as_bytes","XPrv::new"])
p("C02","A damaged mnemonic backup is refused or read as exactly what it says",
 "Whatever damage a saved phrase suffers (flipped or missing bytes, torn or mixed writes, lost, repeated, transposed or replaced words), restoring or validating it never crashes: it reports an error, unless the damaged text is itself a correct BIP39 phrase (known words, permitted length, matching checksum), in which case it yields exactly the wallet that text denotes. Validation accepts every canonical correct phrase and never accepts one that restoring refuses. Raw entropy of a length BIP39 does not permit is refused.",
 ["fault_sequences","crash_points","inputs"],
 "every saved phrase and every sequence of storage or transmission faults applied to it, including crashes between the sectors of an overwrite",
 "The tests only restore intact phrases; not one test feeds a phrase with a bad checksum, an unknown word or a wrong length.",
 [B39+"mnemonic.rs",B39+"mnemonic_type.rs",B39+"language.rs",B39+"util.rs"],
 [("checksum comparison",B39+"mnemonic.rs phrase_to_entropy"),("word lookup",B39+"language.rs WordMap::get_bits"),("length table",B39+"mnemonic_type.rs for_word_count, for_key_size")],
 [("phrase record","bytes on the simulated disk","caller's storage")],
 ["Mnemonic::from_phrase","Mnemonic::validate","Mnemonic::from_entropy"])
p("C03","Extended keys survive storage exactly and damaged records are refused",
 "An extended private or public key written as text and read back after any crash or restart is the same key in every field, for every depth, parent fingerprint, child number, chain code, key value and xprv/xpub/tprv/tpub/yprv/ypub/zprv/zpub label, and its text is the one BIP32 prescribes. A record that is altered, truncated, extended or spliced is refused with an error and never a crash. So is one whose checksum is intact but whose content BIP32 declares invalid: key kind not matching the label, private key outside 1..n-1, public key not a compressed curve point, or depth zero with a non-zero parent fingerprint or child number.",
 ["fault_sequences","crash_points","inputs"],
 "every key, every record written to storage, every crash point of the write and every sequence of storage faults or substitutions applied to the record",
 "The tests parse and print about a dozen well-formed records; none is damaged, none has a leading-zero key or an extreme depth or index, and no invalid-key vector of BIP32 is run.",
 [EK+"mod.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"prefix.rs",B32+"child_number.rs"],
 [("Base58Check encode/decode with fixed length",EK+"mod.rs write_base58, FromStr"),("kind and range validation",EK+"extended_private_key.rs TryFrom, extended_public_key.rs TryFrom"),("label handling",B32+"prefix.rs")],
 [("key record","text on the simulated disk","caller's storage")],
 ["ExtendedKey::from_str, write_base58, Display","XPrv/XPub from_str, to_string"])
p("C04","Every route to a private child key gives the same BIP32 key",
 "The private key at a derivation path is the same whether it is derived in one call or step by step, from the seed or from any ancestor, or by a process resumed after a crash from an ancestor's saved record; and its key, chain code, depth, parent fingerprint and child number are the ones BIP32 prescribes. A derivation past depth 255 fails with an error and yields no key. Seeds of a length other than 16, 32, 64 or 128 bytes are refused.",
 ["histories","crash_points","inputs"],
 "every seed, every path over all 2^32 child numbers, every way of splitting the path over calls and processes, every crash point in between",
 "Two test seeds and six paths are pinned, all derived in one call from the seed; no split derivation, resumed derivation, depth limit or leading-zero key is exercised.",
 [EK+"extended_private_key.rs",B32+"private_key.rs",B32+"child_number.rs",B32+"derivation_path.rs"],
 [("CKDpriv",EK+"extended_private_key.rs derive_child"),("path folding",EK+"extended_private_key.rs new_from_path, derive_from_path"),("scalar tweak",B32+"private_key.rs derive_child")],
 [("chain position","depth, parent fingerprint, child number, chain code",EK+"attrs.rs")],
 ["XPrv::new, new_from_path, derive_child, derive_from_path, attrs, to_bytes"])
p("C05","Watch-only public derivation always agrees with the signer",
 "For every non-hardened path, the public key, chain code, depth, parent fingerprint and child number a watch-only party derives from an extended public key are exactly those of the extended public key of the private child the signer derives, wherever on the path the switch from private to public is made and however messages between them are delayed, repeated, reordered or their processes restarted. Deriving a hardened child from public data is always refused with an error, as is passing depth 255. A child's parent fingerprint is always the fingerprint of its parent.",
 ["histories","fault_sequences","inputs"],
 "every key, every path and every point of the path at which the public key is exported, every delivery order and restart of the two parties",
 "One xpub and one child index (2) are tested; no hardened refusal, depth limit, multi-step public path or second exporting point is.",
 [EK+"extended_public_key.rs",EK+"extended_private_key.rs",B32+"public_key.rs"],
 [("CKDpub",EK+"extended_public_key.rs derive_child"),("neutering",EK+"extended_public_key.rs From<&ExtendedPrivateKey>"),("point tweak and fingerprint",B32+"public_key.rs")],
 [("chain position","depth, parent fingerprint, child number, chain code",EK+"attrs.rs")],
 ["XPrv::public_key","XPub::derive_child, derive_from_path, fingerprint, attrs, to_bytes"])
p("C06","New mnemonics carry full fresh OS entropy or creation fails",
 "Every newly generated mnemonic carries as many unpredictable bits from the operating system's entropy source as its length promises, all bit positions included, so no two generations ever coincide: within a thread, across threads, after a restart, or in a process and its forked copy. If the source is interrupted or gives short reads, creation still gets full entropy or fails; if the source fails, creation returns no mnemonic. Once the source recovers, creation works again.",
 ["fault_sequences","schedules","histories"],
 "every sequence of entropy-source outcomes (data, short read, EINTR, EIO, ENOSYS with device-file fallback), every interleaving of generating threads, every point at which a process forks or restarts",
 "The tests create two random mnemonics in a healthy process and only check that they restore; nothing observes where the bytes come from, a failing source, another thread or a fork.",
 [B39+"crypto.rs",B39+"mnemonic.rs",B39+"mnemonic_type.rs"],
 [("random byte generation",B39+"crypto.rs gen_random_bytes"),("entropy size per length",B39+"mnemonic_type.rs entropy_bits")],
 [("generator state","whatever random state lives between calls, per thread and process",B39+"crypto.rs")],
 ["Mnemonic::new"])
p("C07","Concurrent use gives the same answers as sequential use, and finishes",
 "However calls from several threads interleave, including threads racing to be the first to use a word list, every call returns the same result it returns when executed alone in a fresh process. Every call finishes within a bounded number of steps: no deadlock and no livelock, also when another thread panics, is stalled or gets its entropy refused meanwhile.",
 ["schedules","fault_sequences"],
 "every interleaving of any set of calls on any number of threads, every stall and panic point",
 "The test harness happens to run tests on 8 threads, but which interleavings occur is uncontrolled and no test uses more than one thread; first use happens once per process.",
 [B39+"language.rs",B39+"crypto.rs",B39+"mnemonic.rs",EK+"extended_private_key.rs","src/lib.rs"],
 [("once-only lazy initialisation of word lists and word maps",B39+"language.rs lazy"),("absence of other shared mutable state","whole crate")],
 [("lazy tables","process-wide word lists and word maps",B39+"language.rs")],
 ["every public function"])
p("C08","Secrets are wiped from memory when their owner goes away",
 "The memory that held a mnemonic's phrase and entropy, a seed's bytes, an extended key record's key bytes, or a private key's self-wiping text holds none of that data at the moment it is released, whichever thread releases it and however the owner ends: going out of scope, replacement, early return, panic unwinding, or thread exit. Wiping one copy never alters another live copy.",
 ["histories","crash_points","schedules"],
 "every lifetime history of the objects (clone, move, send, replace, drop, consume) and every point at which unwinding or thread exit ends it",
 "No test looks at memory after a drop; leaving a buffer unwiped changes no output a test can see.",
 [B39+"mnemonic.rs",B39+"seed.rs",EK+"mod.rs",EK+"extended_private_key.rs"],
 [("Zeroizing fields",B39+"mnemonic.rs Mnemonic"),("Drop for Seed",B39+"seed.rs"),("Drop for ExtendedKey",EK+"mod.rs"),("Zeroizing<String>",EK+"extended_private_key.rs to_string")],
 [("secret buffers","heap blocks and inline bytes owned by the objects","as above")],
 ["the allocator, at the release of each block"])
p("C09","A failing key backend never yields a wrong key",
 "When the key implementation behind an extended key reports an error for any operation of a derivation, import or parse, the call returns an error and no key, whichever operation of the call it was; the parent key stays usable, and repeating the call after the failure has passed returns the correct key. A tweak that is zero, not below the curve order, or cancels the key makes child derivation on the built-in secp256k1 keys return an error, never a key and never a panic.",
 ["fault_sequences","inputs"],
 "every placement of failures (single, repeated, permanent; error or panic) over the backend operations of every call, every tweak",
 "Tests only use the built-in backend, which never fails on the vectors used.",
 [EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"private_key.rs",B32+"public_key.rs"],
 [("error propagation",EK+"extended_private_key.rs new, derive_child, TryFrom"),("tweak validation",B32+"private_key.rs derive_child, public_key.rs derive_child")],
 [],
 ["ExtendedPrivateKey<K>/ExtendedPublicKey<K> with a fault-injecting K","PrivateKey::derive_child, PublicKey::derive_child on secp256k1 keys"])
p("C10","Signatures verify, repeat exactly and never reuse a nonce",
 "Signing a 32-byte digest gives a low-S signature and recovery id that verify under, and recover to, the signer's public key. The same key signing the same digest gives the identical signature in every retry, thread, and process, before or after a crash; different digests or different keys never share the signature's nonce value. A digest of any other length is refused with an error.",
 ["schedules","crash_points","histories","inputs"],
 "every key and digest, every history of duplicated and retried requests, every crash and restart of the signer, every interleaving of signing threads",
 "No test calls the signing function at all.",
 ["src/lib.rs","src/error.rs",B32+"private_key.rs"],
 [("deterministic ECDSA over a parsed 32-byte message","src/lib.rs ecdsa_sign"),("key hand-over from the extended key",B32+"private_key.rs From<XPrv>")],
 [],
 ["ecdsa_sign","libsecp256k1::SecretKey::from(XPrv)"])
p("C11","Comparing key replicas finds every difference",
 "Two extended private keys compare equal exactly when key value, chain code, depth, parent fingerprint and child number are all equal, and the same holds for two extended public keys; so after any history of lost writes, stale replicas and tampering, replicas that differ in anything are told apart and identical ones are not. Constant-time comparison and ordinary equality agree, and equality is reflexive and symmetric.",
 ["histories","fault_sequences","inputs"],
 "every pair of keys that replicas can come to hold through any history of updates, lost writes, crashes and record substitutions",
 "The two equality assertions in the tests compare equal keys only; none compares different ones.",
 [EK+"extended_private_key.rs",EK+"extended_public_key.rs",EK+"attrs.rs"],
 [("ConstantTimeEq and PartialEq",EK+"extended_private_key.rs"),("derived equality",EK+"extended_public_key.rs")],
 [],
 ["XPrv ==, ct_eq","XPub =="])
p("C12","Failed output is reported, and what was written is never wrong",
 "Writing a mnemonic, seed, extended key, prefix, derivation path or child number as text into any sink delivers exactly the correct text (words, hexadecimal, Base58, path notation) when the sink accepts it all, also through short and interrupted writes. When the sink fails at any point, the failure is reported to the caller and what the sink has received is a prefix of the correct text. Encoding a key record into a reused buffer never exposes or depends on the buffer's earlier content.",
 ["fault_sequences","inputs"],
 "every value, every formatting style, every sink failure position, short write and interruption pattern, every earlier content of a reused buffer",
 "The tests format into in-memory strings, which never fail, and never reuse a buffer.",
 [B39+"mnemonic.rs",B39+"seed.rs",EK+"mod.rs",B32+"derivation_path.rs",B32+"child_number.rs",B32+"prefix.rs"],
 [("fmt implementations with ? on each write",B39+"mnemonic.rs, seed.rs"),("write_base58 returning the written length",EK+"mod.rs")],
 [],
 ["Display, LowerHex, UpperHex, Debug","ExtendedKey::write_base58"])
p("C13","Derivation paths survive transmission exactly",
 "A derivation path or child number sent between parties as text or bytes is received as exactly the same sequence of child numbers and hardened marks, for every length and all 2^32 child numbers, through duplication, reordering and restarts. A damaged path is refused with an error or read as exactly the sequence its text denotes (m, then decimal indices below 2^31, each with an optional hardened mark, separated by slashes); it never crashes and never changes a component. Building a path by pushing, extending or taking the parent yields the path so described.",
 ["fault_sequences","histories","inputs"],
 "every path, every sequence of network faults on its text and every sequence of path operations",
 "The tests round-trip six fixed paths and reject one malformed child number.",
 [B32+"derivation_path.rs",B32+"child_number.rs"],
 [("text form and parser",B32+"derivation_path.rs Display, FromStr; child_number.rs Display, FromStr"),("index and hardened bit",B32+"child_number.rs")],
 [],
 ["DerivationPath / ChildNumber parse, Display, to_bytes, from_bytes, push, extend, parent"])
p("C14","A call's result never depends on what happened before it",
 "In one process, every call returns the same result it would return in a fresh process, whatever calls, with whatever related arguments, preceded it: including calls that failed, panicked in a caller's callback, were refused entropy or found a full sink, and whatever the clock did. Objects already returned keep their value throughout.",
 ["histories","fault_sequences"],
 "every finite history of calls, failing calls, faults and clock changes in one process",
 "Each test makes a handful of unrelated calls; none repeats a call with one argument changed, or after a failure.",
 [B39+"mnemonic.rs",B39+"seed.rs",B39+"language.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs",EK+"mod.rs","src/lib.rs"],
 [("no state is kept between calls other than immutable word tables","whole crate")],
 [("lazy tables","the only state that outlives a call",B39+"language.rs")],
 ["every public function"])
p("C15","Diagnostics never disclose secrets",
 "The debug form of an extended private key, and every error or panic message produced when phrases, seeds, key records, paths or digests are damaged, refused or interrupted by a fault, is the same whatever the secret is: it contains no words of the phrase, no entropy and no private key material.",
 ["fault_sequences","inputs"],
 "every secret and every fault that makes an operation on it fail",
 "One test checks the wording of three errors; none checks that a message is independent of the secret, and none formats a private key for debugging.",
 [EK+"extended_private_key.rs",B39+"error.rs",B32+"error.rs","src/error.rs",B39+"mnemonic.rs"],
 [("redacting Debug",EK+"extended_private_key.rs Debug"),("error enums without secret payload",B39+"error.rs, src/bip32/error.rs, src/error.rs")],
 [],
 ["Debug of XPrv","Display/Debug of every returned error","panic messages"])
p("C16","Word prefix search returns exactly the matching words",
 "Searching a language's word list for a prefix returns exactly the words of that list that start with it, in list order.",
 ["inputs"],"every language and every prefix","Three English prefixes are tested, no Chinese one.",
 [B39+"language.rs"],[("prefix search",B39+"language.rs get_words_by_prefix")],[],["WordList::get_words_by_prefix"])
p("C17","Comparing private keys takes time independent of their contents",
 "The time taken to compare two extended private keys reveals nothing about the position of their first difference.",
 ["inputs"],"every pair of keys","Tests do not measure time.",
 [EK+"extended_private_key.rs"],[("ConstantTimeEq",EK+"extended_private_key.rs ct_eq")],[],["XPrv =="])
p("C18","Language codes and detection name the right language",
 "A language code is accepted exactly when it names a supported language, in any letter case; a phrase's language is detected as the one whose list contains its first word, and as none when no list does.",
 ["inputs"],"every string","Two codes and one phrase are tested.",
 [B39+"language.rs"],[("code table",B39+"language.rs from_language_code"),("first-word lookup",B39+"language.rs from_phrase")],[],["Language::from_language_code, from_phrase"])
p("C19","The RIPEMD-160 helper returns the standard digest in hexadecimal",
 "The RIPEMD-160 helper returns the lower-case hexadecimal RIPEMD-160 digest of its input.",
 ["inputs"],"every byte string","Not tested.",
 ["src/crypto.rs"],[("ripemd","src/crypto.rs")],[],["crypto::ripemd"])
p("C20","Finished calls leave nothing behind, however long the process runs",
 "However many calls a process makes, with whatever arguments and whether they succeed, fail, panic in a caller's callback or are refused entropy, and in whatever threads, the memory, open files and threads the library holds stay bounded: repeating calls leaves nothing more behind once they have returned and the caller dropped what it got.",
 ["histories","fault_sequences","schedules"],
 "every history of calls of every length, with the same or ever new arguments, and every fault met in it: refused entropy, failing backends and sinks, panicking callbacks, threads that end",
 "Every test makes a handful of calls that succeed in a process that then ends; a leak of a few bytes on an error path, a memo without bound or a file left open shows only after thousands of calls.",
 [B39+"mnemonic.rs",B39+"seed.rs",B39+"language.rs",EK+"mod.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"derivation_path.rs","src/lib.rs"],
 [("word tables built once",B39+"language.rs lazy"),("ownership of intermediate keys on error paths",EK+"extended_private_key.rs derive_from_path")],
 [("heap in use, open files, threads","what a process holds between calls","the process")],
 ["every public function and trait implementation"])
p("C21","No secret stays in memory once its last owner is gone",
 "Once every mnemonic, seed, key and text a caller got from the library has been dropped and no call is under way, no live memory of the process (heap, static or thread-local variables) holds a phrase, entropy, seed, password, private key or extended private key text that passed through it, whatever calls were made, succeeded, failed or panicked, and in whatever threads.",
 ["histories","fault_sequences","schedules"],
 "every history of calls on secrets, the faults met in it (refused entropy, failing backends and sinks, panics in callbacks, damaged inputs) and every order in which owners go",
 "No test looks at memory; a cache, a last-used memo or a scratch buffer that keeps a secret changes no result.",
 [B39+"mnemonic.rs",B39+"seed.rs",B39+"crypto.rs",EK+"mod.rs",EK+"extended_private_key.rs",B32+"private_key.rs","src/lib.rs"],
 [("zeroization on drop",B39+"mnemonic.rs, seed.rs Drop"),("no state but the word tables",B39+"language.rs lazy")],
 [("heap, static and thread-local memory","what a process holds between calls","the process")],
 ["Mnemonic, Seed, ExtendedPrivateKey, ExtendedKey and all functions taking or giving secrets"])
p("C22","No input and no history makes a call slow, endless or memory-hungry",
 "Every call returns after an amount of work and memory that grows no faster than the size of its arguments, however long and whatever they are, and that does not depend on how many calls, failures and threads the process saw before: there is no argument that makes a call loop, recurse out of its stack or take work or memory out of proportion, and the ten-thousandth call costs what the second did.",
 ["inputs","histories","schedules"],
 "every argument of every length (texts, paths, seeds, messages, passwords), and every history of calls with the same or ever new arguments, failures, panics and threads before the call",
 "Every test argument is short and every test process makes a handful of calls; quadratic work, recursion over the input, or a list searched from end to end shows only with long arguments or after thousands of calls.",
 [B39+"mnemonic.rs",B39+"language.rs",B39+"util.rs",B32+"derivation_path.rs",B32+"child_number.rs",EK+"mod.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs"],
 [("single pass over words and bits",B39+"mnemonic.rs phrase_to_entropy, util.rs BitWriter"),("single pass over path components",B32+"derivation_path.rs FromStr"),("word lookup in a table",B39+"language.rs WordMap")],
 [("tables built once",  "the only state that outlives a call",B39+"language.rs lazy")],
 ["every public function and trait implementation"])
p("C23","A call touches nothing outside the library",
 "Whatever the arguments, whether a call succeeds, fails, panics in a caller's callback or is refused entropy, and in whatever thread and after whatever history, the library reads and writes no file, makes no directory, network connection or process, prints and logs nothing, and leaves the host program's surroundings as they were: environment variables, working directory, umask, signal handlers and mask, thread names, limits, timers, priority, affinity, floating-point mode, locale, open files and panic hook. The operating system's entropy source is the only thing outside that it consults.",
 ["histories","inputs","fault_sequences"],
 "every call with every argument, after every history, in every thread, and every fault met in it: refused entropy, failing backends and sinks, panicking callbacks",
 "No test looks at anything but a result; a debug print, a log of failures, a swapped panic hook or a scratch file on a rare path changes no result.",
 [B39+"mnemonic.rs",B39+"seed.rs",B39+"language.rs",EK+"mod.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"derivation_path.rs","src/lib.rs"],
 [("no system call but for entropy",B39+"mnemonic.rs new")],
 [("system calls and output","everything a process does to the world","the operating system"),("surroundings of the host program","process-wide settings before and after a call","the process")],
 ["every public function and trait implementation"])
p("C24","A call gives the same answer on every machine",
 "The answer of every call that draws no entropy depends on its arguments alone: not on environment variables, files, locale, date and time, number of processors, user, host name, process number, working directory, addresses of memory or stack, or what new memory happens to hold. A wallet made or restored on one machine is the same wallet on every other; and calls that draw entropy keep their promises (right length, right checksum) everywhere.",
 ["inputs","histories","fault_sequences"],
 "every call with every argument, on every machine a process may run on and at every time",
 "All tests run in one environment, on one machine, on one day; a default taken from a variable, a limit taken from the number of processors or a date check shows nowhere there.",
 [B39+"mnemonic.rs",B39+"seed.rs",B39+"language.rs",EK+"mod.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs",B32+"derivation_path.rs","src/lib.rs"],
 [("constant parameters",B39+"crypto.rs pbkdf2"),("constant tables",B39+"language.rs lazy")],
 [("environment, clock, host identity, memory contents","everything outside the arguments","the process")],
 ["every public function and trait implementation"])
p("C25","No argument and no history makes a call panic or end the process",
 "Whatever its arguments (texts of any length and characters, bytes of any length, numbers of any size, records of any content), and whatever calls, failures and panics in callers' callbacks came before it, every call returns a value or an error: it never panics, aborts, overflows the stack or ends the process. Excepted are only what the documentation says panics, the caller's own callbacks, iterators that promise more items than memory holds, and a new mnemonic when the operating system refuses entropy.",
 ["inputs","histories","fault_sequences"],
 "every call with every argument, in every thread, after every history of calls and of refused entropy, failing or panicking callbacks and forks",
 "The tests call with well-formed arguments; a slice across a character, an index one too far, a lock poisoned by a caller's panic or an addition that overflows needs an argument or a history that no test has.",
 [B39+"mnemonic.rs",B39+"mnemonic_type.rs",B39+"language.rs",B39+"util.rs",B32+"derivation_path.rs",B32+"child_number.rs",B32+"prefix.rs",EK+"mod.rs",EK+"extended_private_key.rs",EK+"extended_public_key.rs","src/lib.rs"],
 [("errors instead of panics","every fallible function"),("checked depth",EK+"extended_private_key.rs derive_child"),("prefix by characters",EK+"mod.rs FromStr")],
 [("word tables built once","a lock that a panic could poison",B39+"language.rs lazy")],
 ["every public function and trait implementation"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w",encoding="utf8") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
