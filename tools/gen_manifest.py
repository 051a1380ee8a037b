#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,os
T="deterministic simulation with fault injection: seeded search over schedules, crashes and faults of the real library in simulated processes"
N={
"C01":"Seeded sampling of wallets, crash points and re-entries. Oracle: an independent BIP39/BIP32 model (word lists, bit packing, PBKDF2, CKD written in the simulator). Trusts the SHA-2/HMAC/secp256k1 primitives of the cached crates, and the simulated disk (16-byte sectors, nothing/all/some sectors of an unsynced write survive).",
"C02":"Seeded sampling of damages to saved phrases (torn, mixed, rotted, lost, swapped words). Oracle: the model's reading of the damaged text. Phrases accepted by chance of the checksum are judged against the wallet they denote.",
"C03":"Seeded sampling of records and damages, including re-checksummed splices. Oracle: an own Base58Check and record parser following BIP32. Trusts the curve library for 'is a curve point'.",
"C04":"Seeded sampling of seeds, ancestors, paths and crash/resume points; routes compared with each other and with the model's CKDpriv.",
"C05":"Seeded sampling of message histories between a signer and watch-only parties under drop, delay, duplication, reordering, partition and restart. Oracle: the model's CKDpub/CKDpriv.",
"C06":"Accounts every OS-entropy byte handed to the process and measures the GF(2) rank of the mnemonic's response to flipped OS bits; uniqueness over threads, forks and restarts of each run. A deterministic expansion with full rank of enough OS bits is accepted as fresh.",
"C07":"Real threads run one at a time under a seeded scheduler with preemption at every instrumented edge, load, store, allocation and system call; random and PCT schedules; spurious wake-ups, stalls, refused entropy. Sequentially consistent interleavings only: weak-memory reorderings are outside. Bounded liveness = step budget.",
"C08":"The simulated allocator inspects each watched block at the moment of its release. Covers the buffers the objects own (phrase, entropy, seed, record key bytes, text) and whole phrases of 24 bytes or more in any block released while a phrase is read; copies on the stack and short-lived partial copies are outside the property.",
"C09":"Seeded choice of which backend operation fails, for how long, and whether by error or panic; boundary tweaks on the built-in secp256k1 keys. Oracle: error and no key, retry equals the model.",
"C10":"Signatures are judged by the model (verify, recover, low-S) and nonce values are compared across all signatures of a run (and with those of the threads and processes in it). Digests congruent modulo the group order are excluded (ECDSA itself cannot tell them apart).",
"C11":"Replicas after seeded histories of lost, stale, torn and tampered updates, compared as bytes by the oracle and by the library.",
"C12":"Sinks that fail, are interrupted, write short or panic at seeded points; oracle: the model's text, prefix and report. Reused buffers with arbitrary earlier content.",
"C13":"Paths and child numbers through damage, duplication, reordering and restart; oracle: a reference parser and printer. Signs and leading zeros in indices are not decided by the property and accepted either way.",
"C14":"Histories of related calls in one process, its forked copies and other threads, each call compared with the same call in a fresh process. Nothing but the library itself is the oracle, so a result that is always wrong is left to the other properties.",
"C15":"Two processes with different secrets go through the same history; every error, panic, debug text and everything printed must be equal. Leaks that are equal for both secrets of every sampled pair are not seen; chain codes are not counted as private key material.",
"C20":"Cycles of calls are repeated 16 to 20000 times in one process and the simulated allocator's bytes in use, open files and threads are compared after 1/8, 1/4, 1/2 and all rounds: four growing counts are a violation (with ever new arguments only if at least 2 bytes stay per call, so bounded caches that fill are tolerated). A leak that starts only after more calls than a cycle has is not seen.",
"C21":"When nobody owns anything, the node's live heap, static memory and the main thread's thread-local memory are searched for every secret of 16 bytes or more that went through the history (also in hexadecimal, reversed, halves and pieces). Secrets kept in another encoding, short passwords, stacks and registers are not searched.",
"C22":"Calls are weighed in the simulator: instrumented steps of the library, bytes allocated and moved, peak heap. A call must cost after thousands of other calls at most half more than before them, and with an argument eight times as long at most sixteen times as much. Work inside uninstrumented dependencies (curve arithmetic, hashing, Base58, Unicode tables) is seen only as far as it allocates or moves memory.",
"C23":"The process runs under a system-call filter that hands every call outside a short list (memory, futex, clocks, entropy) to the simulator, which records it, and process-wide settings are compared before and after. Seeded histories of calls with refused entropy, failing backends and sinks, panics, thousands of repetitions. Bytes read from the entropy device and its open descriptor are tolerated. What a library reads through the vDSO or by getenv is C24's.",
"C24":"The same call in a process on this simulated machine and on another one (every environment variable set, every file there, clock up to decades away, other processors, user, host name, process number, addresses, contents of new memory and stack) must give the same answer. Hardware differences (byte order, word size, CPU features) are outside.",
"C25":"Seeded histories of all calls with damaged, cut, joined, exaggerated and mixed-up arguments, after refused entropy, failing and panicking callbacks, forks, in threads and destructors. A panic counts when its source is not the simulator's own callback; so does any death of the process, hang or stack overflow. Built with overflow checks and debug assertions, as the repository's tests are.",
}
NA={
"C16":"A pure function of one argument over constant tables: no schedule, clock, I/O, fault or history for it to depend on. (Its history- and thread-independence is part of C07 and C14. A defect found while reading was repaired: 03efcd7.)",
"C17":"Execution time is not observable in the simulator, which counts instrumented steps and not cycles; the real code's timing depends on compiler and CPU.",
"C18":"A pure function of one argument over constant tables: no schedule, clock, I/O, fault or history for it to depend on. (Its history- and thread-independence is part of C07 and C14.)",
"C19":"A pure function of its input computed by an external crate: nothing for a simulator to schedule or to fail. (Its history- and thread-independence is part of C07 and C14.)",
}
m={"version":1,"setup_cmd":"tools/build.sh","checks":[
 {"property":k,"quick_cmd":f"./check.sh {k} quick","thorough_cmd":f"./check.sh {k} thorough","technique":T,"level":"exploration","level_note":v} for k,v in N.items()],
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()]}
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
