P("C01", "A transaction is accepted only if it is well formed, balanced and signed",
  """Transaction validation accepts a full transaction exactly when it has at least one input and one output, no two
  inputs name the same output point, every output value is non-zero, the input and output sums are equal without
  overflow, and every input has its own pay-to-public-key witness that commits to that input's witness program and
  verifies over the transaction's identifier. Every other transaction is rejected with an error that names the first
  failing component.""",
  "inputs", "every full transaction (any values, hashes and witness bytes) and every behaviour of the signature verifier",
  "unit tests try about ten hand-made transactions; overflow, aliasing of inputs and witness/commitment mismatches range over all byte values",
  "src/uhs/transaction/validation.cpp src/uhs/transaction/transaction.cpp",
  [("check_tx and its component checks", "src/uhs/transaction/validation.cpp")], observe=["validation::check_tx"])
P("C02", "Compact transactions need a quorum of distinct authorised attestations",
  """A compact transaction counts as attested only if the number of sentinel attestations it carries reaches the
  configured threshold and each of them comes from an authorised key and verifies over that very compact transaction;
  an attestation by an unknown key or one that does not verify is never accepted. What is signed covers the
  transaction id, all inputs and all outputs, and does not depend on the attestations already attached.""",
  "inputs configurations", "all compact transactions, attestation sets, authorised key sets and thresholds in the bound",
  "tests use one key and threshold 1; the statement is about every subset of keys and every forged attestation",
  "src/uhs/transaction/validation.cpp src/uhs/transaction/transaction.cpp",
  [("check_attestations, check_attestation, compact_tx::hash/verify", "src/uhs/transaction")])
P("C03", "Transaction and UHS identifiers bind exactly the data they stand for",
  """Two full transactions have the same identifier only if they have the same inputs and outputs; witnesses do not
  affect it. The UHS identifiers that a transaction creates are the ones its outputs' spenders will later present as
  inputs, are distinct for distinct (transaction, index, output) triples, and compaction preserves identifier, inputs
  and outputs in order.""",
  "inputs", "all pairs of transactions with the bounded number of inputs and outputs, over all field values",
  "an identifier that forgets one field, or mixes two, still passes tests that compare single examples",
  "src/uhs/transaction/transaction.cpp src/uhs/transaction/transaction.hpp src/uhs/transaction/messages.cpp",
  [("tx_id, input_from_output, uhs_id_from_output, compact_tx ctor", "src/uhs/transaction/transaction.cpp")])
P("C04", "A wallet conserves value and never offers an output twice",
  """A wallet's balance always equals the sum of the unspent outputs it can spend; a transaction it builds has equal
  input and output totals, uses only outputs it held, uses each at most once, and passes validation when signed, and
  after that no later transaction reuses them. A send it cannot fund changes nothing, and saving and loading a wallet
  gives the same balance and spendable outputs.""",
  "inputs histories", "all sequences of mint, send, receive, confirm and save/load steps in the bound, with symbolic amounts",
  "tests follow a few fixed sequences with fixed amounts", "src/uhs/transaction/wallet.cpp",
  [("wallet::send_to, accumulate_inputs, update_balance, save/load", "src/uhs/transaction/wallet.cpp")])
P("C05", "A locking shard never lets one output be spent by two transactions",
  """Over any history of lock, apply and discard requests in which each distributed transaction applies what it locked,
  an output held by a shard is consumed by at most one committed transaction, is created only as an output of a
  committed transaction, and is available again after every transaction that locked it has been aborted. An output is
  never available while a transaction holds its lock.""",
  "histories inputs", "all bounded histories of lock/apply/discard with aliasing decided symbolically",
  "tests use disjoint, hand-picked outputs and one order of operations",
  "src/uhs/twophase/locking_shard/locking_shard.cpp",
  [("lock_outputs / apply_outputs / check_and_lock_tx", "src/uhs/twophase/locking_shard/locking_shard.cpp")],
  state=[("m_uhs", "available outputs", "locking_shard.hpp"), ("m_locked", "outputs locked by a prepared dtx", "locking_shard.hpp")])
P("C06", "Locking-shard requests are idempotent and status queries tell the truth",
  """Repeating a lock, apply or discard request for a distributed transaction returns the same answer and does not change
  which outputs exist; applying or discarding something never prepared fails or does nothing. A status query says an
  output is unspent exactly when the shard holds it, and says a transaction completed only if it was committed.""",
  "histories inputs", "all bounded request histories with retries at every position",
  "retries in every position of every history cannot be enumerated by hand-written tests",
  "src/uhs/twophase/locking_shard/locking_shard.cpp src/util/common/cache_set.hpp",
  [("m_prepared_dtxs / m_applied_dtxs / m_completed_txs", "src/uhs/twophase/locking_shard/locking_shard.cpp")])
P("C07", "A distributed transaction commits on every shard or on none",
  """However many shards take part, whatever each shard answers, and wherever the coordinator crashes and resumes, the
  coordinator tells every participating shard the same per-transaction verdict, and that verdict is commit exactly for
  those transactions that every shard holding one of their inputs or outputs managed to lock. No shard is told to apply
  before all have answered the lock request, nor to discard before all have applied, and every shard that took part in
  applying is eventually told to discard.""",
  "fault_sequences crash_points inputs", "all shard answers, all failing calls, a crash and recovery at every phase",
  "tests run one failure at a time with fixed answers", "src/uhs/twophase/coordinator/distributed_tx.cpp",
  [("distributed_tx::execute and recover_*", "src/uhs/twophase/coordinator/distributed_tx.cpp")])
P("C08", "The replicated coordinator log always knows which transactions must be finished",
  """After any sequence of replicated phase commands, reading the coordinator's replicated state gives, for each
  distributed transaction, exactly the last phase recorded for it together with the data needed to resume it, and
  nothing for transactions that were completed; a command round-trips through its wire format unchanged.""",
  "histories inputs", "all bounded command sequences over symbolic transaction ids and payloads",
  "tests send one command of each kind", "src/uhs/twophase/coordinator/state_machine.cpp src/uhs/twophase/coordinator/format.cpp",
  [("state_machine::commit", "src/uhs/twophase/coordinator/state_machine.cpp")])
P("C09", "A sentinel forwards only valid transactions and reports the true outcome",
  """A two-phase sentinel passes a transaction on to a coordinator only if it is valid and has gathered the required
  number of attestations, and answers the client with confirmed only if the coordinator reported it confirmed, with
  the validation error if it was invalid, and with rejected or unknown otherwise; each request is answered exactly
  once.""",
  "inputs fault_sequences", "all transactions, peer-sentinel answers and coordinator answers in the bound",
  "tests use a fixed transaction and a fixed coordinator", "src/uhs/twophase/sentinel_2pc/controller.cpp",
  [("controller::execute_transaction / validate_transaction", "src/uhs/twophase/sentinel_2pc/controller.cpp")])
P("C10", "The atomizer never settles two transactions that spend the same output",
  """For any order of notifications and block boundaries, if shards only attest to inputs that were unspent at the
  height they name, no output is an input of two transactions in the produced blocks, every settled transaction had
  all its inputs attested, each transaction is settled at most once, and block heights increase by exactly one.
  Notifications older than the spent cache covers are refused.""",
  "histories inputs", "all bounded sequences of notifications and block creations, with symbolic inputs, attestations and heights",
  "tests pick a handful of sequences; the guarantee is about every interleaving with block boundaries",
  "src/uhs/atomizer/atomizer/atomizer.cpp", [("insert/insert_complete/check_stxo_cache/make_block", "src/uhs/atomizer/atomizer/atomizer.cpp")])
P("C11", "Atomizer replicas and snapshots reproduce the same state",
  """Serialising an atomizer's state and restoring it gives an atomizer that behaves identically from then on, and
  applying the same commands in the same order on any replica gives the same blocks and errors; a stored block is
  returned unchanged until it is pruned, and pruning removes exactly the blocks below the given height.""",
  "histories inputs", "all bounded command sequences over symbolic commands, with a snapshot at every point",
  "tests snapshot one fixed state", "src/uhs/atomizer/atomizer/state_machine.cpp src/uhs/atomizer/atomizer/atomizer.cpp src/uhs/atomizer/atomizer/format.cpp",
  [("state_machine::commit, snapshots, atomizer::serialize", "src/uhs/atomizer/atomizer")])
P("C12", "An atomizer shard attests only to its own inputs that exist at that height",
  """A shard attests to an input only if the input is in its range and was unspent in its database at the height it
  reports, reports an error if any of its inputs does not exist, and applies blocks strictly in height order so that
  afterwards exactly the outputs created and not yet spent in its range exist, atomically with the height.""",
  "histories inputs", "all bounded block histories and transactions with symbolic hashes and ranges",
  "tests use a few fixed blocks", "src/uhs/atomizer/shard/shard.cpp",
  [("digest_block / digest_transaction", "src/uhs/atomizer/shard/shard.cpp")])
P("C13", "The archiver stores a gapless chain of blocks exactly as received",
  """Whatever the order in which blocks arrive, including duplicates and gaps, the archiver's stored blocks are a
  contiguous prefix starting at height one, each returned exactly as received, the best height only ever grows by one
  at a time and survives a restart, and blocks received early are stored once the gap is filled.""",
  "histories", "all bounded arrival orders of blocks with symbolic content",
  "arrival orders explode combinatorially", "src/uhs/atomizer/archiver/controller.cpp",
  [("digest_block / get_block", "src/uhs/atomizer/archiver/controller.cpp")])
P("C14", "The watchtower reports the true recent history of every output",
  """For any sequence of blocks and errors, the watchtower reports an output as spent or unspent for a transaction only
  if one of the last k blocks says so, never reports an output as both, forgets exactly the blocks and errors that left
  its window, and reports an error for a transaction while any of the last k errors concerns it.""",
  "histories inputs", "all bounded sequences of blocks, errors and queries with symbolic identifiers",
  "tests push a few blocks with disjoint identifiers", "src/uhs/atomizer/watchtower/block_cache.cpp src/uhs/atomizer/watchtower/error_cache.cpp src/uhs/atomizer/watchtower/watchtower.cpp",
  [("block_cache, error_cache, watchtower", "src/uhs/atomizer/watchtower")])
P("C15", "Key locks are mutually exclusive and wounding respects ticket age",
  """At any time a key of a PArSEC shard is write-locked by at most one ticket and never read-locked by another ticket
  at the same time; an older ticket is never wounded by a younger one, a ticket that has prepared is never wounded,
  and a wounded or unknown ticket can no longer acquire, prepare or commit.""",
  "histories schedules inputs", "all bounded sequences of operations by several tickets on several keys, in every order",
  "tests script a few interleavings of two tickets", "src/parsec/runtime_locking_shard/impl.cpp",
  [("try_lock / wound_tickets / acquire_lock", "src/parsec/runtime_locking_shard/impl.cpp")])
P("C16", "Shard writes are atomic, guarded by write locks and never lost",
  """A value changes only when a ticket that prepared writes to keys it had write-locked commits, and then all its
  prepared updates become visible together; rollback leaves every value as it was; a granted read lock returns the
  last committed value.""",
  "histories inputs", "all bounded histories of lock, prepare, commit, rollback and finish with symbolic values",
  "tests look at one key and one ticket", "src/parsec/runtime_locking_shard/impl.cpp",
  [("prepare / commit / rollback", "src/parsec/runtime_locking_shard/impl.cpp")])
P("C17", "Every lock request is answered exactly once and no lock is stranded",
  """Every lock request is answered exactly once, either granted or refused, and whenever a lock is released the next
  eligible waiter is granted, so that once all tickets have finished every key can be locked again; among waiters the
  wait-for relation cannot form a cycle.""",
  "histories schedules", "all bounded operation sequences over several tickets and keys",
  "lost wake-ups appear only in particular orders", "src/parsec/runtime_locking_shard/impl.cpp",
  [("lock queues and callbacks", "src/parsec/runtime_locking_shard/impl.cpp")])
P("C18", "A PArSEC shard recovers exactly its prepared and committed tickets",
  """After a leader change, the shard rebuilt from replicated state holds all committed values, write-locks every key
  of every prepared ticket for that ticket and nobody else, lets exactly those tickets be committed or rolled back,
  and reports each unfinished ticket to its broker in the right state.""",
  "crash_points histories inputs", "all bounded replicated histories, with a leader change at any point",
  "tests recover one scripted state", "src/parsec/runtime_locking_shard/replicated_shard.cpp src/parsec/runtime_locking_shard/impl.cpp src/parsec/runtime_locking_shard/state_machine.cpp",
  [("replicated_shard, impl::recover", "src/parsec/runtime_locking_shard")])
P("C19", "A broker commits a ticket on all of its shards or on none",
  """The broker tells a shard to commit only after every shard the ticket touched has prepared, reports commit success
  only after every such shard committed, and after any shard refuses or fails no shard commits that ticket; every
  broker call invokes its callback exactly once, whatever the shards answer and in whatever order.""",
  "fault_sequences schedules inputs", "all shard answers, failures and answer orders in the bound",
  "tests run with well-behaved shards", "src/parsec/broker/impl.cpp",
  [("broker::impl commit path", "src/parsec/broker/impl.cpp")])
P("C20", "Broker recovery finishes what was committed and undoes the rest",
  """After a broker restarts, recovery commits a ticket on its remaining shards if any shard had already committed it,
  rolls it back everywhere otherwise, then finishes it on every shard, touches no ticket of another broker, and
  reports its outcome exactly once.""",
  "crash_points fault_sequences", "all combinations of per-shard ticket states and failing calls",
  "tests cover two scripted crash states", "src/parsec/broker/impl.cpp",
  [("broker::impl::recover", "src/parsec/broker/impl.cpp")])
P("C21", "Ticket numbers are never handed out twice and only grow",
  """The ticket machine hands out consecutive, non-overlapping ranges of ticket numbers; the client that caches them
  gives each number to at most one caller, in increasing order, answers every request exactly once, and reports
  failure instead of a number when none can be obtained.""",
  "schedules fault_sequences", "all bounded interleavings of requests and responses, with any failures",
  "tests issue sequential requests", "src/parsec/ticket_machine/impl.cpp src/parsec/ticket_machine/client.cpp src/parsec/ticket_machine/state_machine.cpp",
  [("get_ticket_number / handle_ticket_numbers", "src/parsec/ticket_machine")])
P("C22", "An agent executes each function as one atomic, retried transaction",
  """An agent draws one ticket, locks and fetches the function's code, runs it with the parameters it was given, takes for
  it only the locks it asks for (no write locks in a read-only run), and commits exactly the updates the function returned
  (none in a read-only run), once. If anything fails before that, it rolls the ticket back and commits nothing of that
  attempt; a committed ticket is never rolled back or run again. It asks for a retry only after a complete rollback and
  only if the attempt failed for a transient reason (wounded, or the broker or a shard did not answer), never asks for a
  lock it is still waiting for, and finishes its ticket in the end. When continued after each
  transient error it reports in the end, once, whether the function was committed, with the updates committed. A failure
  to draw a ticket is reported. Answers of the broker may come at once, later, in any order or on several threads.""",
  "fault_sequences schedules", "every sequence of broker and runner answers in the bound",
  "tests inject a few single failures", "src/parsec/agent/impl.cpp", [("agent::impl", "src/parsec/agent/impl.cpp")])
P("C23", "Every message survives serialisation unchanged",
  """For every message type exchanged or stored by the system, decoding an encoded value gives back an equal value,
  consumes exactly the bytes that were written, the predicted size equals the encoded size, and distinct values have
  distinct encodings.""",
  "inputs", "all values of each message type, with collections up to the stated bound",
  "tests round-trip one literal per type", "src/util/serialization/format.hpp src/uhs/transaction/messages.cpp src/uhs/atomizer/atomizer/format.cpp src/parsec/runtime_locking_shard/format.cpp src/uhs/twophase/coordinator/format.cpp src/uhs/twophase/locking_shard/format.cpp",
  [("operator<< / operator>> overloads", "src/util/serialization/format.hpp")])
P("C24", "Decoding untrusted bytes is safe, terminates and never invents data",
  """Decoding an arbitrary byte string as any message type never reads or writes outside its buffers, never aborts, never
  loops or allocates in proportion to a length field that the data does not back, and reports failure whenever the
  data is truncated or contains an invalid tag.""",
  "inputs", "every byte string up to the stated length, for every message type",
  "tests decode well-formed data", "src/util/serialization/format.hpp src/util/serialization/buffer_serializer.cpp src/util/serialization/util.hpp",
  [("serializer bounds checks, reservation cap, optional/variant tags", "src/util/serialization")])
P("C25", "The network layer delivers every packet whole and in order",
  """For any way a byte stream is cut into partial sends and receives, each packet sent is received exactly once, with
  the same content and in order, a malformed or truncated frame is never delivered, and a lost connection is reported.""",
  "schedules inputs", "every split of the stream and all packet contents in the bound",
  "loopback tests never see short reads or writes", "src/util/network/tcp_socket.cpp src/util/network/peer.cpp",
  [("tcp_socket::send/receive framing", "src/util/network/tcp_socket.cpp")])
P("C26", "Each RPC response reaches the request it answers, exactly once",
  """A remote-call client gives each call an identifier of its own and completes it at most once, with the response that
  carries that identifier or with a failure (not sent, failed at the server, timed out, client destroyed, answer of another
  kind), never with another call's response; unknown, repeated, late or malformed responses have no effect. A server hands
  each well-formed request to its handler once, answers it with the handler's result under the request's identifier to the
  peer that sent it, answers a request its handler fails or refuses with a failure, and ignores malformed ones.""",
  "schedules fault_sequences inputs", "all bounded sequences of calls, responses in any order, duplicates and garbage",
  "tests make sequential calls", "src/util/rpc/client.hpp src/util/rpc/server.hpp src/util/rpc/tcp_client.hpp src/util/rpc/async_server.hpp src/util/rpc/blocking_server.hpp",
  [("client::call / handle_response, server handlers", "src/util/rpc")])
P("C27", "Hex text decodes back to exactly the bytes it encodes, and nothing else",
  """Converting bytes or hashes to hexadecimal text and back gives the same bytes, the text has two lower-case digits per
  byte, and text that is not such a string (odd length, any non-hex character, wrong length for a hash) is rejected
  without touching memory outside the result.""",
  "inputs", "all byte strings and all text strings up to the stated length",
  "tests use one valid and one invalid string", "src/util/common/buffer.cpp src/util/common/hash.cpp",
  [("buffer::from_hex/to_hex, hash_from_hex/to_string", "src/util/common")])
P("C28", "The bounded cache remembers exactly the most recent entries",
  """A bounded set reports an element as present exactly if it is among the last distinct elements added up to its
  capacity, and its memory never exceeds that capacity.""",
  "histories", "all bounded add/query sequences over symbolic elements and capacities",
  "a test adds a few distinct integers", "src/util/common/cache_set.hpp", [("cache_set::add", "src/util/common/cache_set.hpp")])
P("C29", "Shard ranges route every output to the right shard",
  """A hash belongs to a shard exactly if its first byte lies in the shard's inclusive range, and every component that
  routes by hash (coordinator, sentinel, status client, shards) selects shards by that rule: each input and output
  reaches the shards responsible for it and no others. A configuration whose shard range is inverted or does not fit one
  byte is refused. The PArSEC directory gives every key one home among the shards, the same in every directory.""",
  "inputs configurations", "all hashes and all ranges", "tests use one or two ranges",
  "src/util/common/config.cpp src/parsec/directory/impl.cpp src/uhs/twophase/coordinator/controller.cpp src/uhs/atomizer/sentinel/controller.cpp src/uhs/twophase/locking_shard/status_client.cpp src/uhs/twophase/locking_shard/locking_shard.cpp",
  [("hash_in_shard_range, key_location", "src")])
P("C30", "Configuration text is read as written or refused",
  """Parsing a configuration gives exactly the values written: quoted text as a string, digits as an integer, digits with
  a decimal point as a decimal, host:port as an endpoint. Malformed text (signs, trailing characters, unbalanced quotes,
  numbers or ports too large, keys that are not 64 hexadecimal digits) is refused, by an error or by stopping the
  program, never read as something else. A missing or wrongly typed value is refused where it is required and replaced by
  its default where it is optional, every other option keeping its value; environment variables override the file in the
  same syntax; inconsistent options are refused.""",
  "inputs configurations", "all configuration texts up to the stated length and shape",
  "tests parse three files", "src/util/common/config.cpp", [("parser and read_options", "src/util/common/config.cpp")])
P("C31", "RLP encoding is canonical and decoding is exact and safe",
  """Encoding any value or list in RLP and decoding it gives the same value, the encoding is the canonical one defined
  for Ethereum, and decoding arbitrary bytes never reads or writes outside its memory, never hangs or allocates what a
  length in the input merely claims, reports failure exactly when the bytes do not hold the whole value, and otherwise
  gives the value they encode. (Bytes left over after the value, and encodings that are longer than the canonical one,
  are not refused.)""",
  "inputs", "all values and byte strings up to the bound", "tests use published vectors",
  "src/parsec/agent/runners/evm/rlp_writer.cpp src/parsec/agent/runners/evm/rlp_reader.cpp src/parsec/agent/runners/evm/rlp.cpp src/parsec/agent/runners/evm/rlp.hpp",
  [("rlp reader and writer", "src/parsec/agent/runners/evm")])
P("C32", "256-bit EVM arithmetic agrees with integer arithmetic",
  """Addition, subtraction, multiplication and shifting by whole bytes of 256-bit EVM words give the mathematically
  correct result modulo 2^256; a word made from an integer converts back to it and converting a larger word takes its
  low 64 bits; the hexadecimal text of a word names exactly that word, without leading zeros where it is to be trimmed;
  and text is read as a word exactly if it is hexadecimal and fits.""",
  "inputs", "all 256-bit operands", "tests try a handful of operands",
  "src/parsec/agent/runners/evm/math.cpp src/parsec/agent/runners/evm/util.cpp", [("evmc::uint256be operators", "src/parsec/agent/runners/evm/math.cpp")])
P("C33", "EVM account effects are atomic, balanced and never overdrawn",
  """Executing an EVM transaction moves exactly the transferred value and the fee between accounts, never lets a balance
  go below zero or create money, increments the sender's nonce once, restores all state changed by a reverted call,
  and refuses a transaction whose nonce, funds or gas limit do not suffice.""",
  "inputs histories", "all bounded accounts, values and call outcomes", "tests run a few fixed contracts",
  "src/parsec/agent/runners/evm/host.cpp src/parsec/agent/runners/evm/impl.cpp", [("evm_host, evm_runner", "src/parsec/agent/runners/evm")])
P("C34", "EVM transactions, accounts and receipts survive encoding and hashing binds them",
  """An Ethereum transaction, account, receipt or log record read back from its encoding equals the original; a
  transaction encoded in the Ethereum format of its type decodes to an equal transaction that encodes to the same bytes;
  decoding never crashes, refuses what is not a transaction or was made for another chain, and whatever it accepts
  encodes to something that decodes to the same transaction; the signing hash changes exactly when a signed field, the
  type or the chain changes; and the address of whoever signed a transaction is recovered from it, also after it was
  encoded and decoded.""",
  "inputs", "all field values in the bound", "tests use one example per type",
  "src/parsec/agent/runners/evm/serialization.cpp src/parsec/agent/runners/evm/format.cpp src/parsec/agent/runners/evm/hash.cpp",
  [("tx_encode / tx_decode, operator<< / >>", "src/parsec/agent/runners/evm")])
P("C35", "The Raft log store behaves like an indexed log",
  """For any sequence of appends, overwrites, packs and compactions, the log returns at each index exactly the last entry
  written there, an overwrite drops everything after it, next and start index delimit exactly the stored entries,
  packed entries reappear unchanged, and all of this survives reopening the store.""",
  "histories inputs crash_points", "all bounded operation sequences", "tests run one scripted sequence",
  "src/util/raft/log_store.cpp src/util/raft/index_comparator.cpp", [("log_store", "src/util/raft/log_store.cpp")])
P("C36", "Raft cluster configuration and vote state survive a crash",
  """A saved Raft configuration or server state is what is later loaded; a crash at any point of a save leaves either the
  previous or the new version, never a partial one.""",
  "crash_points inputs", "every crash point of a save", "tests do not crash in the middle of a save",
  "src/util/raft/state_manager.cpp", [("save_object / load_object", "src/util/raft/state_manager.cpp")])
P("C37", "Queues and worker pools neither lose nor duplicate work",
  """Every item pushed to a blocking queue is popped exactly once unless the queue is cleared first, in the order of the
  queue, and a consumer never sleeps while an item waits: a push wakes one waiting consumer, clearing the queue wakes all of
  them empty-handed, and after a reset the queue works as before. A worker pool runs each task it accepts exactly once
  (unless the pool is destroyed before the task starts), starts it without waiting for any other task, and its destructor
  returns with no task running, under every thread schedule.""",
  "schedules", "every bounded interleaving of producers, consumers and shutdown",
  "a stress test samples schedules", "src/util/common/blocking_queue.hpp src/util/common/thread_pool.cpp",
  [("condition-variable protocol", "src/util/common")])
P("C38", "A client wallet loses no funds whatever happens to its transactions",
  """Whatever the order of mint, send, fan, receive, confirm and abandon operations and of sentinel answers, a client's
  spendable outputs, pending transactions and pending receipts account for all its funds: an input is spendable again
  exactly when every pending transaction that spends it is abandoned, every output received (also several of one
  transaction) is spendable once its transaction is confirmed, and a client that is closed and opened again between two operations continues from the same point.
  Synchronising asks about every pending transaction, confirms exactly those reported as settled, and reports whether
  every answer came (two-phase) or everything was confirmed (atomizer). A mint is submitted with valid attestations of the
  configured quorum and is spendable only once it is confirmed, whatever the answer and however late. An address made
  from a public key gives back that key, and a mistyped, empty or otherwise sized address is refused.""",
  "histories fault_sequences", "all bounded operation sequences and answers", "tests run scripted sequences",
  "src/uhs/client/client.cpp src/uhs/client/twophase_client.cpp src/uhs/client/atomizer_client.cpp", [("client", "src/uhs/client")])
P("C39", "A coordinator batches each transaction once and reports each result once",
  """A leading coordinator accepts a transaction only with a valid quorum of attestations and only once per batch, puts no
  more transactions into a batch than configured, runs every accepted transaction in exactly one distributed
  transaction, and reports to its submitter exactly once the result that the shards gave for it. While it does not lead
  it refuses transactions. When it stops leading or is destroyed, even under load or while starting, it stops without
  hanging, tells no submitter twice and tells none a result the shards did not give; when it starts leading it finishes
  every distributed transaction its predecessor left, whatever phase that was in, before it answers new ones.""",
  "inputs schedules fault_sequences", "all bounded batches and shard verdicts", "tests run a single transaction on one schedule",
  "src/uhs/twophase/coordinator/controller.cpp", [("execute_transaction / batch executor", "src/uhs/twophase/coordinator/controller.cpp")])
P("C40", "JSON-RPC calls are matched to their answers and malformed ones refused",
  """A JSON-RPC client delivers each response to the call with the same identifier exactly once, and the server answers
  malformed requests with an error and never crashes on them.""",
  "inputs schedules", "all request bodies", "tests send well-formed bodies",
  "src/util/rpc/http/json_rpc_http_client.cpp src/util/rpc/http/json_rpc_http_server.cpp", [("json_rpc", "src/util/rpc/http")])
P("C41", "Lua contracts touch state only through locks they were granted",
  """A Lua contract run by an agent reads only keys whose lock was granted, and the updates committed are exactly those it
  returned, for keys it holds.""",
  "programs", "all contract programs", "tests run a few contracts", "src/parsec/agent/runners/lua/impl.cpp",
  [("lua_runner", "src/parsec/agent/runners/lua/impl.cpp")])
