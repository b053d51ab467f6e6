"""Which harness, which sources and which bounds decide each property."""
ASSUMPTIONS = [
    "clang-18 -O1 bitcode stands for the program (the repository is built with gcc in Debug); assert() stays enabled and is an obligation",
    "containers: red-black trees are modelled as unbalanced search trees, hash tables have one bucket, so the order of iteration over an unordered container is one fixed order",
    "SHA-256 is an injective uninterpreted function, SipHash a constant (it only selects buckets)",
    "operator new never fails; one allocation above 256 MB counts as an unbounded allocation",
    "log output is not part of any property",
]
SPECS = {}
NA = {
    "C25": "the code lives on sockets, descriptors and poll/read/write in several threads; a model of the kernel's TCP that is faithful enough for losses and closes at any byte was not completed, and without it the executor would only check the model",
    "C33": "the runner executes byte code in evmone through evmc's host interface; neither is installed, and a stand-in for the interpreter would decide what the property is about",
    "C40": "the JSON-RPC layer is a thin shell around libcurl, libmicrohttpd and jsoncpp, none of which has sources or headers here to encode (libmicrohttpd), so its behaviour would be that of the stand-ins",
    "C41": "the Lua runner's effects are those of the Lua interpreter (not installed), which would have to be encoded with it",
}


def P(id, entries, **k):
    k["entries"] = entries
    SPECS[id] = k


def E(file, fn, **k):
    return dict(file=file, fn=fn, **k)


COMMON = ["util/common/hash.cpp", "util/common/buffer.cpp", "util/common/logging.cpp", "util/common/hashmap.cpp"]
SER = ["util/serialization/*.cpp"]
TX = ["uhs/transaction/transaction.cpp", "uhs/transaction/validation.cpp", "uhs/transaction/messages.cpp"]

LSHARD = COMMON + SER + TX + ["util/common/config.cpp", "util/common/keys.cpp",
    "uhs/twophase/locking_shard/locking_shard.cpp", "uhs/twophase/locking_shard/interface.cpp"]
VAL = COMMON + SER + TX + ["util/common/keys.cpp"]
P("C01", [E("c01.cpp", "c01_structure", parts=4), E("c01.cpp", "c01_witness"), E("c01.cpp", "c01_signed")], srcs=VAL)
P("C02", [E("c01.cpp", "c02_quorum", parts=4), E("c01.cpp", "c02_distinct"), E("c01.cpp", "c02_keys"), E("c01.cpp", "c02_payload")], srcs=VAL)
P("C03", [E("c01.cpp", "c03_txid", parts=2), E("c01.cpp", "c03_compact"), E("c01.cpp", "c03_uhs")], srcs=VAL)
WC = ["cannot be funded"]
P("C04", [E("c04.cpp", "c04_sends", parts=6), E("c04.cpp", "c04_wide", parts=2), E("c04.cpp", "c04_seeded", parts=2), E("c04.cpp", "c04_receive", parts=2, optional_covers=WC), E("c04.cpp", "c04_saved", parts=2), E("c04.cpp", "c04_nofile"), E("c04.cpp", "c04_threads", opts={"quick": ["-preempt=1"]})],
  srcs=VAL + ["uhs/transaction/wallet.cpp", "util/common/random_source.cpp"])
P("C05", [
    E("c05.cpp", "c05_two", parts={"quick": 4, "thorough": 8}),
    E("c05.cpp", "c05_three"),
    E("c05.cpp", "c05_range"),
    E("c05.cpp", "c05_ids"),
    E("c05.cpp", "c05_attest"),
    E("c05.cpp", "c05_threads"),
  ], srcs=LSHARD)
P("C06", [
    E("c06.cpp", "c06_repeat", parts={"quick": 4, "thorough": 8}),
    E("c06.cpp", "c06_range"), E("c06.cpp", "c06_unprepared", opts={"any": ["-exit-ok"]}), E("c06.cpp", "c06_stopped"),
    E("c06.cpp", "c06_replica"), E("c06.cpp", "c06_status"), E("c06.cpp", "c06_threads"),
  ], srcs=LSHARD + ["uhs/twophase/locking_shard/state_machine.cpp", "uhs/twophase/locking_shard/status_server.cpp",
    "uhs/twophase/locking_shard/format.cpp", "uhs/twophase/locking_shard/messages.cpp", "util/rpc/format.cpp", "util/raft/serialization.cpp"])
COORD = COMMON + SER + TX + ["util/common/config.cpp", "util/common/keys.cpp", "util/common/random_source.cpp",
    "uhs/twophase/locking_shard/interface.cpp", "uhs/twophase/locking_shard/format.cpp",
    "uhs/twophase/coordinator/distributed_tx.cpp", "uhs/twophase/coordinator/state_machine.cpp", "uhs/twophase/coordinator/format.cpp",
    "uhs/twophase/coordinator/controller.cpp", "util/raft/*.cpp", "util/rpc/format.cpp"]
P("C07", [
    E("c07.cpp", "c07_route", opts={"any": ["-preempt=0"]}, replay="executor"),
    E("c07.cpp", "c07_verdicts", opts={"any": ["-preempt=0"]}, replay="executor"),
    E("c07.cpp", "c07_crash", opts={"any": ["-preempt=0", "-one-sched"]}, replay="executor", parts={"quick": 4, "thorough": 8}),
  ], srcs=COORD)
P("C08", [E("c08.cpp", "c08_phases"), E("c08.cpp", "c08_data", parts=4), E("c08.cpp", "c08_ids")], srcs=COORD)

RLS = COMMON + ["parsec/runtime_locking_shard/impl.cpp"]
RC = ["a ticket commits", "a ticket prepares", "a ticket is wounded", "a request waits"]
P("C15", [E("c15.cpp", "c15_locks", parts=3, optional_covers=RC[:2]), E("c15.cpp", "c15_mixed", parts=5),
          E("c15.cpp", "c15_prepared", optional_covers=RC[2:3]), E("c15.cpp", "c15_misuse"), E("c15.cpp", "c15_threads")], srcs=RLS)
P("C16", [E("c15.cpp", "c16_values", optional_covers=RC), E("c15.cpp", "c16_history", parts=4, optional_covers=RC), E("c15.cpp", "c15_mixed", parts=5),
          E("c15.cpp", "c15_misuse"), E("c15.cpp", "c15_threads")], srcs=RLS)
P("C17", [E("c15.cpp", "c15_locks", parts=3, optional_covers=RC[:2]), E("c15.cpp", "c15_prepared", optional_covers=RC[2:3]),
          E("c15.cpp", "c17_upgrade", parts=2, optional_covers=RC[:2]), E("c15.cpp", "c17_wakeups", parts=2, optional_covers=RC[:2]), E("c15.cpp", "c15_threads")], srcs=RLS)
P("C18", [E("c18.cpp", "c18_recover", parts=6, optional_covers=RC), E("c18.cpp", "c18_inflight", optional_covers=RC), E("c18.cpp", "c18_refused", optional_covers=RC)],
  srcs=RLS + SER + ["parsec/runtime_locking_shard/%s.cpp" % x for x in ("replicated_shard", "replicated_shard_client", "server", "state_machine", "format")] + ["util/raft/*.cpp", "util/rpc/format.cpp"])
BROKER = COMMON + ["parsec/broker/impl.cpp"]
P("C19", [E("c19.cpp", "c19_commit", parts=4), E("c19.cpp", "c19_restart"), E("c19.cpp", "c19_late"), E("c19.cpp", "c19_refused"), E("c19.cpp", "c19_threads"), E("c19.cpp", "c19_tickets"), E("c19.cpp", "c19_locks")], srcs=BROKER)
P("C20", [E("c19.cpp", "c20_states", parts=2), E("c19.cpp", "c20_faults"), E("c19.cpp", "c20_again"), E("c19.cpp", "c20_threads")], srcs=BROKER)
ATOM = COMMON + SER + TX + ["uhs/atomizer/atomizer/atomizer.cpp", "uhs/atomizer/atomizer/block.cpp", "uhs/atomizer/atomizer/messages.cpp", "uhs/atomizer/watchtower/tx_error_messages.cpp"]
AC = ["a transaction ran out of time", "a transaction waits for attestations"]
ATOMR = ATOM + ["util/common/config.cpp", "util/common/keys.cpp", "uhs/atomizer/atomizer/%s.cpp" % "atomizer_raft", "uhs/atomizer/atomizer/format.cpp", "uhs/atomizer/atomizer/state_machine.cpp",
    "util/raft/*.cpp", "util/rpc/format.cpp", "uhs/atomizer/watchtower/messages.cpp"]
P("C10", [E("c10.cpp", "c10_complete", parts=4, optional_covers=AC), E("c10.cpp", "c10_pending", parts=4), E("c10.cpp", "c10_heights"),
          E("c11.cpp", "c10_raft", parts=4, optional_covers=AC, srcs=ATOMR), E("c11.cpp", "c10_threads", optional_covers=AC, srcs=ATOMR)], srcs=ATOM)
P("C11", [E("c10.cpp", "c11_complete", parts=4, optional_covers=AC), E("c10.cpp", "c11_pending", parts=4),
          E("c11.cpp", "c11_replicas", parts=4, srcs=ATOMR), E("c11.cpp", "c11_crash", srcs=ATOMR)], srcs=ATOM)
WT = COMMON + SER + ["uhs/transaction/transaction.cpp", "uhs/transaction/messages.cpp"] + ["uhs/atomizer/watchtower/%s.cpp" % x for x in ("block_cache", "error_cache", "watchtower", "status_update", "status_update_messages", "tx_error_messages", "messages")] + ["uhs/atomizer/atomizer/block.cpp", "uhs/atomizer/atomizer/messages.cpp"]
P("C14", [E("c14.cpp", "c14_blocks", parts=4), E("c14.cpp", "c14_errors", parts=2), E("c14.cpp", "c14_statuses", parts=4, optional_covers=["settled after an error"]), E("c14.cpp", "c14_settled", parts=4), E("c14.cpp", "c14_threads"),
          E("c14_controller.cpp", "c14_controller", srcs=WT + ["util/common/config.cpp", "util/common/keys.cpp", "uhs/atomizer/watchtower/controller.cpp"])],
  srcs=WT)
ASH = COMMON + SER + TX + ["util/common/config.cpp", "util/common/keys.cpp", "uhs/atomizer/shard/shard.cpp", "uhs/atomizer/shard/controller.cpp", "uhs/atomizer/atomizer/block.cpp",
    "uhs/atomizer/atomizer/messages.cpp", "uhs/atomizer/atomizer/format.cpp", "uhs/atomizer/watchtower/tx_error_messages.cpp", "uhs/atomizer/watchtower/messages.cpp"]
SC = ["not in sync", "unreadable database"]
P("C12", [E("c12.cpp", "c12_blocks", parts=4), E("c12.cpp", "c12_restart", parts=2, optional_covers=SC[1:]), E("c12.cpp", "c12_concurrent", optional_covers=SC), E("c12.cpp", "c12_controller", parts=2, optional_covers=SC)], srcs=ASH)
P("C13", [E("c13.cpp", "c13_order", parts=2), E("c13.cpp", "c13_restart", optional_covers=["truncated"]), E("c13.cpp", "c13_requests", optional_covers=["truncated", "early block", "gap filled", "duplicate"])],
  srcs=ATOM + ["util/common/config.cpp", "util/common/keys.cpp", "uhs/atomizer/archiver/controller.cpp", "uhs/atomizer/atomizer/format.cpp", "uhs/atomizer/archiver/client.cpp"])
P("C21", [E("c21.cpp", "c21_machine"), E("c21.cpp", "c21_client", parts=2), E("c21.cpp", "c21_threads", optional_covers=["unreachable", "refused", "repeated answer", "failure reported"])],
  srcs=COMMON + SER + ["util/common/config.cpp", "util/common/keys.cpp", "util/common/random_source.cpp", "util/raft/*.cpp", "util/rpc/format.cpp", "parsec/ticket_machine/impl.cpp", "parsec/ticket_machine/client.cpp", "parsec/ticket_machine/state_machine.cpp"])
RT = COMMON + SER + TX + ["util/common/config.cpp", "util/common/keys.cpp", "util/common/random_source.cpp", "util/rpc/format.cpp", "util/raft/serialization.cpp", "util/raft/messages.cpp",
    "uhs/sentinel/format.cpp", "uhs/sentinel/interface.cpp", "uhs/twophase/locking_shard/format.cpp", "uhs/twophase/locking_shard/messages.cpp", "uhs/twophase/locking_shard/interface.cpp", "uhs/twophase/coordinator/format.cpp",
    "uhs/atomizer/atomizer/format.cpp", "uhs/atomizer/atomizer/messages.cpp", "uhs/atomizer/atomizer/block.cpp", "uhs/atomizer/atomizer/atomizer.cpp"] + ["uhs/atomizer/watchtower/%s.cpp" % x for x in ("watchtower", "messages", "status_update", "status_update_messages", "tx_error_messages", "block_cache", "error_cache")] + [
    "parsec/runtime_locking_shard/format.cpp", "parsec/agent/format.cpp"]
C23E = ["basic", "transactions", "sentinel", "twophase", "atomizer", "watchtower", "parsec"]
P("C23", [E("c23.cpp", "c23_" + x, parts=2) for x in C23E] + [E("c23.cpp", "c23_carriers"), E("c23.cpp", "c23_large"), E("c23.cpp", "c23_commands"), E("c23.cpp", "c23_state")], srcs=RT)
P("C24", [E("c24.cpp", "c24_" + x, parts=2, opts={"any": ["-bulk=32", "-max-alloc=4194304"]}) for x in C23E] + [E("c24.cpp", "c24_cut_" + x) for x in C23E], srcs=RT)
P("C27", [E("c27.cpp", "c27_" + x) for x in ("bytes", "text", "long_text", "prefixed")] + [E("c27.cpp", "c27_hash"), E("c27.cpp", "c27_hash_text")], srcs=COMMON, summaries=False)
P("C28", [E("c28.cpp", "c28_history", parts=4), E("c28.cpp", "c28_hashes"), E("c28.cpp", "c28_threads")], srcs=COMMON)
S2PC = COMMON + SER + TX + ["util/common/config.cpp", "util/common/keys.cpp", "util/rpc/format.cpp", "uhs/sentinel/client.cpp", "uhs/sentinel/format.cpp", "uhs/sentinel/interface.cpp", "uhs/twophase/sentinel_2pc/controller.cpp",
    "uhs/twophase/sentinel_2pc/server.cpp", "uhs/twophase/coordinator/client.cpp", "uhs/twophase/coordinator/format.cpp"]
ASENT = COMMON + SER + TX + ["util/common/config.cpp", "util/common/keys.cpp", "util/rpc/format.cpp", "uhs/sentinel/client.cpp", "uhs/sentinel/format.cpp", "uhs/sentinel/interface.cpp", "uhs/atomizer/sentinel/controller.cpp",
    "uhs/atomizer/sentinel/server.cpp", "uhs/twophase/locking_shard/locking_shard.cpp", "uhs/twophase/locking_shard/interface.cpp", "uhs/twophase/locking_shard/status_client.cpp", "uhs/twophase/locking_shard/format.cpp", "uhs/twophase/locking_shard/messages.cpp", "parsec/directory/impl.cpp"]
UN = ["peer unreachable", "coordinator unreachable", "peer refuses"]
P("C09", [E("c09.cpp", "c09_execute", parts=4, replay="executor"), E("c09.cpp", "c09_two", parts=4, replay="executor"), E("c09.cpp", "c09_validate", replay="executor", optional_covers=UN),
          E("c29.cpp", "c09_atomizer", replay="executor", srcs=ASENT, opts={"any": ["-preempt=0", "-one-sched"]}), E("c29.cpp", "c09_atomizer_validate", replay="executor", srcs=ASENT, optional_covers=UN, opts={"any": ["-preempt=0", "-one-sched"]})], srcs=S2PC)
P("C29", [E("c29.cpp", "c29_rule", replay="executor"), E("c29.cpp", "c29_status", replay="executor"), E("c30.cpp", "c29_config"), E("c29.cpp", "c29_directory", replay="executor"), E("c07.cpp", "c07_route", opts={"any": ["-preempt=0"]}, replay="executor", srcs=COORD), E("c29.cpp", "c29_sentinel", parts=2, replay="executor", optional_covers=UN, opts={"any": ["-preempt=0", "-one-sched"]})], srcs=ASENT)
P("C30", [E("c30.cpp", "c30_" + x) for x in ("value", "large", "lines", "endpoint", "port", "env", "loglevel", "read_2pc", "read_atomizer", "keys", "check")], srcs=COMMON + ["util/common/config.cpp", "util/common/keys.cpp"])
RAFT = COMMON + ["util/raft/log_store.cpp", "util/raft/index_comparator.cpp", "util/raft/state_manager.cpp"]
P("C35", [E("c35.cpp", "c35_history", parts=4), E("c35.cpp", "c35_reopen", optional_covers=["packed", "overwritten", "fully compacted"]), E("c35.cpp", "c35_crash", parts=2), E("c35.cpp", "c35_order"), E("c35.cpp", "c35_threads")], srcs=RAFT)
P("C36", [E("c36.cpp", "c36_saves", parts=2, replay="executor"), E("c36.cpp", "c36_failures", replay="executor", parts=2, optional_covers=["saved", "failed save"]), E("c36.cpp", "c36_leftover", replay="executor", optional_covers=["failed save"])], srcs=RAFT)
P("C37", [E("c37.cpp", "c37_fifo"), E("c37.cpp", "c37_priority", parts=2), E("c37.cpp", "c37_threads", parts=3), E("c37.cpp", "c37_clear"), E("c37.cpp", "c37_pool", parts=2), E("c37.cpp", "c37_stop")], srcs=COMMON + ["util/common/thread_pool.cpp"])
P("C26", [E("c26.cpp", "c26_async", parts=4), E("c26.cpp", "c26_sync", parts=3), E("c26.cpp", "c26_closed"), E("c26.cpp", "c26_blocking"), E("c26.cpp", "c26_later"), E("c26.cpp", "c26_raw"),
          E("c26.cpp", "c26_shard_client"), E("c26.cpp", "c26_agent_client"), E("c26.cpp", "c26_sentinel_client"), E("c26.cpp", "c26_retry"), E("c26.cpp", "c26_stop", replay="executor")],
  srcs=RT + ["uhs/sentinel/client.cpp", "uhs/twophase/locking_shard/client.cpp", "parsec/runtime_locking_shard/client.cpp", "parsec/agent/client.cpp"])
P("C22", [E("c22.cpp", "c22_agent", parts=4, optional_covers=["two answers at once"]), E("c22.cpp", "c22_faults", parts=4, optional_covers=["write lock refused", "two answers at once"]), E("c22.cpp", "c22_again", parts=2, optional_covers=["write lock refused", "two answers at once"]),
  E("c22.cpp", "c22_threads", replay="executor", opts={"any": ["-preempt=2"]}, optional_covers=["write lock refused", "failed", "wounded"])], srcs=COMMON + SER + ["parsec/agent/impl.cpp", "parsec/agent/interface.cpp", "parsec/agent/runners/interface.cpp"])
P("C39", [E("c39.cpp", "c39_batches", parts=4, opts={"quick": ["-preempt=0", "-delays=3"], "thorough": ["-preempt=1", "-delays=1"]}, replay="executor"), E("c39.cpp", "c39_stop", parts=4, opts={"any": ["-preempt=1", "-delays=1"]}, replay="executor"),
  E("c39.cpp", "c39_recover", parts=2, opts={"any": ["-preempt=0", "-delays=2"]}, replay="executor", optional_covers=["refused", "completed", "aborted"])],
  srcs=COORD + ["uhs/twophase/coordinator/server.cpp"])
CLI = VAL + ["uhs/transaction/wallet.cpp", "util/common/random_source.cpp", "util/common/config.cpp", "util/rpc/format.cpp", "uhs/sentinel/format.cpp", "uhs/sentinel/interface.cpp", "uhs/client/client.cpp"]
CLI2 = [x for x in CLI if x not in WT] + WT + ["uhs/client/twophase_client.cpp", "uhs/client/atomizer_client.cpp", "uhs/atomizer/atomizer/format.cpp", "uhs/twophase/coordinator/format.cpp",
 "uhs/twophase/locking_shard/format.cpp", "uhs/twophase/locking_shard/messages.cpp", "../3rdparty/bech32/bech32.cpp"]
EVM = COMMON + SER + ["parsec/agent/runners/evm/rlp.cpp", "parsec/agent/runners/evm/rlp_reader.cpp", "parsec/agent/runners/evm/rlp_writer.cpp", "parsec/agent/runners/evm/format.cpp"]
P("C31", [E("c31.cpp", "c31_" + x) for x in ("string", "nested", "long_list", "length", "decode", "huge", "value")], srcs=EVM)
EVMU = EVM + ["parsec/agent/runners/evm/math.cpp", "parsec/agent/runners/evm/util.cpp", "parsec/agent/runners/evm/hash.cpp", "parsec/util.cpp", "util/common/keys.cpp", "parsec/runtime_locking_shard/format.cpp"]
P("C32", [E("c32.cpp", "c32_" + x) for x in ("add", "sub", "shift", "mul", "mul_words", "integers", "hex", "trimmed", "parse", "parse_long")], srcs=EVMU)
EVMT = EVMU + ["parsec/agent/runners/evm/serialization.cpp", "parsec/agent/runners/evm/signature.cpp", "parsec/agent/runners/evm/address.cpp"]
P("C34", [E("c34.cpp", "c34_" + x, replay="executor") for x in ("tx", "chain", "sighash", "signed", "bytes", "hostile", "text", "format")], srcs=EVMT)
P("C38", [E("c38.cpp", "c38_history", parts=4), E("c38.cpp", "c38_conflict"), E("c38.cpp", "c38_twophase_sync"), E("c38.cpp", "c38_twophase_mint", replay="executor"), E("c38.cpp", "c38_atomizer_sync"), E("c38.cpp", "c38_atomizer_mint"),
          E("c38.cpp", "c38_address", parts=2), E("c38.cpp", "c38_address_typo", parts=2)], srcs=CLI2)
