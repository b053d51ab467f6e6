"""Per property: how it is decided, within which bounds, and what lies outside. Used by gen_manifest.py and gen_design.py.
(how, bounds, outside)"""
B = {
"C01": ("check_tx on a transaction whose shape is chosen by the solver and whose bytes are symbolic, against a reference predicate in the harness; witness programs of every length around the right one; a signed transaction with any one part changed afterwards.",
        "0-2 inputs and outputs (3 thorough), 0-3 witnesses, witnesses up to one byte longer than the right length, all 64-bit values.", "secp256k1 itself (model: a signature is a collision-free function of key and message)."),
"C02": ("check_attestations with attestations by authorised and foreign keys over the right and a wrong compact transaction, repeated signers, every threshold.",
        "up to 3 attestations (4 thorough), up to 3 authorised keys, thresholds 0-4.", "more sentinels."),
"C03": ("Two symbolic transactions: equal identifiers exactly if equal content; compaction and UHS ids against their definition.",
        "up to 2 inputs and outputs, all bytes symbolic; SHA-256 is injective by assumption.", "real hash collisions."),
"C04": ("A wallet with received outputs sends, with or without confirmation, receives, is saved and loaded, on one and two threads; each transaction is checked by the repository's own validation and against a ledger of the harness.",
        "2-3 outputs of symbolic value, two sends (value, fan, single output), 64-bit amounts in c04_wide; threads: 2, one preemption.", "longer histories, more than about five outputs, crashes while a file is written."),
"C05": ("Arbitrary interleavings of lock/apply/discard of two or three distributed transactions on one locking shard, symbolic range and ids, compared with a ledger; and the same on two threads.",
        "2 (with 2 transactions) or 3 (with one) distributed transactions, any order of all their requests; 2 threads, preemption at every lock operation.", "more shards at once (C07), more transactions."),
"C06": ("Every request of two distributed transactions in any order with repeats; the replicated state machine and status server decode the same requests from bytes.",
        "5 steps (6 thorough); 2 threads.", "longer histories; the Raft library."),
"C07": ("The real coordinator with real threads (one per shard call), replicated state machine in the harness as log; any call may fail before or after its effect; new coordinators recover.",
        "3 shards, 2 transactions, up to 2 faults in succession (3 thorough); thread orders: cooperative, in c07_crash one order.", "preemption inside calls (C39 has some), Raft elections."),
"C08": ("Every interleaving of the coordinator state machine's commands for several distributed transactions, contents symbolic, state read back after each.",
        "3 distributed transactions; contents up to 2 transactions of 2 inputs.", "-"),
"C09": ("Real sentinel controller with model peers and coordinator client: symbolic transactions, attestation answers and failures; and the atomizer sentinel.",
        "3 sentinels (4 thorough), thresholds 1-3, two clients at once; cooperative scheduling.", "the network below the RPC client (C26)."),
"C10": ("Histories of notifications with symbolic attestation ages and blocks in between, against a reference of what is spent; aggregated by atomizer_raft on several threads.",
        "3 transactions over 2-3 inputs, 4-5 steps, window 1-2, heights symbolic in c10_heights; 2-3 threads.", "longer windows."),
"C11": ("The C10 histories continued on a restored atomizer in lockstep with the original; two replicas with snapshots at any point; a crash at any file operation of a snapshot.",
        "4 steps (5 thorough); one crash.", "file systems that reorder what was flushed."),
"C12": ("A shard over a model LevelDB: blocks in any order, restart and machine crash at any write, transactions while a block is applied on another thread.",
        "3 blocks (4 thorough) of up to 2 transactions; 2-3 threads.", "LevelDB itself (model: atomic batches, unsynced ones may be lost from the end)."),
"C13": ("The archiver's controller over a model LevelDB: blocks in any order with gaps and duplicates, restarts, requests of any height.",
        "4-5 steps, 3 blocks.", "the connection to the atomizer (model client)."),
"C14": ("Blocks, errors and status requests in any order, against a reference; the same on several threads; the controller with the archiver and atomizer connection modelled.",
        "window 1-2, 3-4 steps, up to 3 transactions, 2-3 threads.", "larger windows."),
"C15": ("Sequences of try_lock, prepare, commit, finish, rollback by several tickets, with symbolic choices; exclusion judged from the answers alone; two threads.",
        "3 tickets, 2 keys, 5-6 steps (7 thorough); misuse in every state.", "more tickets; wound-wait is only seen through who gets the lock."),
"C16": ("The C15 histories with values: what a reader gets is what the last committed writer wrote.", "as C15, 1-2 keys with values.", "as C15."),
"C17": ("As C15, with the claim that whenever no one can be blocked by an older holder every waiter has been answered; upgrades; wake-ups of all waiters.",
        "as C15.", "unbounded fairness."),
"C18": ("Replicated shard with the harness as log: stopped at any point, leader change, a command replicated but not acted on; failures of replication.",
        "2 tickets, 1-2 keys, 2 leader changes (3 thorough).", "the Raft library."),
"C19": ("The broker with model shards: every combination and order of answers to commit, rollback, restart from inside a callback, late answers, two threads.",
        "2 shards, 2 tickets; 2 answer threads.", "more shards."),
"C20": ("recover() with shards holding any state of up to 2-3 tickets, with refused and late answers, repeated recovery.",
        "2 shards, 2 tickets (3 thorough), 1 fault (2 thorough).", "crashes of the shards during recovery (C18)."),
"C21": ("The ticket machine's state machine over its log with restarts; the client with refused, repeated and failing answers; two callers and a network thread.",
        "4 requests (6 thorough), ranges of 1-3, symbolic counter.", "exhaustion of 64-bit numbers."),
"C22": ("The agent with a model broker and runner: any call may be refused, fail, answer at once or later, wound; locks are taken again; answers on two threads. Oracle: one report per exec, success exactly if the broker committed, updates exactly those of the function that committed.",
        "1 fault with all timings, 2 faults at fixed timing (thorough: 2 and 3); 2 lock requests per function; 2 threads, 2 preemptions.", "exec() is called again only after the report; the HTTP and Lua servers' reaction to a failed finish or rollback (they give up, and destroying the agent is then fatal: an unrepaired weakness of their design, not of the agent)."),
"C23": ("Every wire type is written and read back with symbolic contents, sizes chosen by the solver, all carriers (optional, variant, map, set, pair, vector).",
        "up to 2 elements per container (c23_large: 6-8), all scalar bytes symbolic.", "longer containers."),
"C24": ("Every wire type is decoded from symbolic bytes and from every prefix of a valid encoding: no out-of-bounds access, no unbounded allocation, no abort; what decodes encodes to the bytes consumed.",
        "up to 32 bytes explored in breadth, container lengths enumerated up to the input and one beyond.", "inputs above the bound; time."),
"C26": ("RPC clients and servers over a model of the TCP layer below them: answers in any order, repeated, unknown, cut short; waiting callers; stop while others wait.",
        "3 calls (4 thorough), 2 waiting threads, every schedule at synchronisation operations.", "sockets and framing (C25)."),
"C27": ("Hexadecimal conversion of symbolic bytes and texts against the definition.", "up to 8 bytes, texts up to 4 characters with all bytes symbolic and up to 72 with one foreign character.", "longer texts."),
"C28": ("Histories on a cache set against a reference list; several element types; threads.", "capacity 1-3, 4-6 operations; 2-3 threads.", "larger capacities."),
"C29": ("Responsibility of shards: the sentinel's and coordinator's routing, the status client, the PARSEC directory (SipHash uninterpreted), and the parsing of ranges.", "3 shards (4 thorough; directory up to 4-8) with symbolic ranges and ids.", "-"),
"C30": ("The configuration parser on symbolic lines, and each option of both architectures: present, absent, malformed.", "values up to 4 characters (5-6 thorough), all bytes symbolic.", "files of more lines than the options need."),
"C31": ("RLP encoder and decoder against Ethereum's definition in the harness; decoding of arbitrary bytes and of lengths up to 2^64.",
        "strings of 14 lengths up to 65536 (contents symbolic up to 300), lists nested 3 deep with up to 5 elements, arbitrary inputs of up to 4 bytes (6 thorough) whose short lengths reach at most one byte beyond the input or are the longest.", "deeper nesting (the decoder recurses), refusal of non-canonical encodings."),
"C32": ("Operators on all 256-bit words against a 64-bit-limb reference; conversions against the definition.",
        "addition, subtraction, shifts: all words. Multiplication: one symbolic byte times two symbolic bytes at any position, and words with a symbolic byte times ten constants that carry through every row. Text up to 5 digits symbolic (7 thorough), up to 66 digits fixed.", "products with more symbolic bytes (nonlinear beyond the solver's reach)."),
"C34": ("Each type of transaction with each field in turn at each length; hostile field lists; signing hash with one field changed at a time; sign, encode, decode, recover. evmc, ethash and jsoncpp are stand-ins with the same layout (they are not installed); Keccak and secp256k1 are collision-free functions.",
        "numbers of 0, 1, 2 and 32 bytes (also 8, 9, 31 thorough), inputs of 0-56 bytes, access lists of 0-2 tuples with 0-1 keys, receipts with up to 1 log and 2 topics.", "JSON forms other than the raw transaction; bytes after the transaction."),
"C35": ("Log store over a model LevelDB: any sequence of append, overwrite, pack, compact, flush, reopen, machine crash, against a reference list; a reading thread.",
        "3-4 operations, 3 initial entries; 2 threads.", "LevelDB itself."),
"C36": ("Raft configuration and state saving over a model file system, failures at any call and a process crash at any point; read back equals the old or the new value.", "2-3 saves, one failure each.", "power loss ordering beyond fsync/rename semantics."),
"C37": ("Queues and thread pool against reference structures, then producers and consumers under every schedule at synchronisation operations.", "5-7 operations; 3-5 threads, 2-3 elements.", "more threads."),
"C38": ("The client with model network: mint, send, receive, import, abandon, confirm, restart, compared with a ledger; synchronisation against any answers; addresses round trip and mistyped.", "4 operations (thorough 5), 2 outputs, addresses with symbolic keys, up to two symbols mistyped at sampled distances.", "a crash between the two file writes; importing outputs that are already confirmed; blocks the watchtower cannot reach."),
"C39": ("The coordinator controller with real batch, executor and start/stop threads, model shards and Raft node.", "2 submitters, 2 batches, 2-3 delays of the scheduler; one preemption and one delay around stop.", "unbounded schedules; time-outs of the network."),
}
