// C30: configuration text; C29: shard ranges in the configuration.
#include "common.hpp"
#include "util/common/config.hpp"
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace vf;
using cbdc::config::options;
using cbdc::config::parser;
#ifdef VERIF_NATIVE
static void set_env(const char* k, const char* v) {
    setenv(k, v, 1);
}
static std::string dir = "/tmp/verif_c30_" + std::to_string(getpid());
static std::string write_file(const std::string& t) {
    auto f = dir + ".cfg";
    std::ofstream(f) << t;
    return f;
}
static void drop_file(const std::string& f) {
    unlink(f.c_str());
}
#else
extern const char* vf_env_name[8];
extern const char* vf_env_value[8];
static void set_env(const char* k, const char* v) {
    for(int i = 0; i < 8; i++)
        if(vf_env_name[i] == nullptr) {
            vf_env_name[i] = k;
            vf_env_value[i] = v;
            return;
        }
}
static std::string write_file(const std::string& t) {
    vfs::get().at("a.cfg")->data = t;
    return "a.cfg";
}
static void drop_file(const std::string&) {}
#endif
static bool is_digit(char c) {
    return static_cast<unsigned>(static_cast<unsigned char>(c)) - '0' < 10;
}
static bool is_blank(char c) {
    return (c == ' ') | (c == '\t') | (c == '\r');
}
// What a value text means.
struct meaning {
    enum kind_t { malformed, number, text, decimal, other } kind;
    unsigned long long n = 0;
    std::string t;
};
static meaning understand(const std::string& v) {
    size_t b = 0, e = v.size();
    while(b < e && is_blank(v[b]))
        b++;
    while(e > b && is_blank(v[e - 1]))
        e--;
    if(b == e)
        return {meaning::malformed};
    auto t = v.substr(b, e - b);
    if(t[0] == '"') {
        if(t.size() < 2 || t.back() != '"')
            return {meaning::malformed};
        return {meaning::text, 0, t.substr(1, t.size() - 2)};
    }
    size_t digits = 0, dots = 0;
    for(char c : t) {
        digits += is_digit(c) ? 1 : 0;
        dots += c == '.' ? 1 : 0;
    }
    if(dots == 0) {
        if(digits != t.size())
            return {meaning::malformed};
        unsigned __int128 n = 0;
        for(char c : t)
            n = n * 10 + static_cast<unsigned>(c - '0');
        if((n >> 64) != 0)
            return {meaning::malformed};
        return {meaning::number, static_cast<unsigned long long>(n)};
    }
    if(dots == 1 && digits + 1 == t.size() && is_digit(t[0]) && is_digit(t.back()))
        return {meaning::decimal, 0, t};
    if(dots > 1)
        return {meaning::malformed};
    return {meaning::other, 0, t}; // forms the documentation does not speak of (".5", "1.e3")
}
// p has exactly the meaning m for the key.
static void same_meaning(const parser& p, const std::string& key, const meaning& m) {
    auto s = p.get_string(key);
    auto n = p.get_ulong(key);
    auto d = p.get_decimal(key);
    CHECKM(m.kind != meaning::malformed, "a malformed value is refused");
    CHECKM(s.has_value() == (m.kind == meaning::text), "a value is a string if and only if it is quoted");
    CHECKM(n.has_value() == (m.kind == meaning::number), "a value is an integer if and only if it consists of digits");
    CHECKM(d.has_value() == (m.kind == meaning::decimal || m.kind == meaning::other), "a value is a decimal if and only if it has a decimal point");
    if(s) {
        CHECKM(*s == m.t, "a string is read as it is written");
        sym_cover("string");
    } else if(n) {
        CHECKM(*n == m.n, "an integer is read as it is written");
        sym_cover("integer");
    } else {
        double x = strtod(m.t.c_str(), nullptr);
        CHECKM(memcmp(&x, &*d, sizeof(x)) == 0, "a decimal is read as it is written");
        sym_cover("decimal");
    }
}
static std::string sym_text(size_t n, const char* name) {
    std::string t(n, 'x');
    sym_bytes(t.data(), n, name);
    for(char c : t)
        ASSUME(c != '\n');
    return t;
}
ENTRY(c30_value) {
    auto n = choose((TIER ? 5 : 4) + 1, "length");
    auto v = sym_text(n, "value");
    auto m = understand(v);
    sym_may_refuse(m.kind == meaning::malformed || m.kind == meaning::other);
    std::stringstream ss("some_key=" + v + "\nnext=7");
    parser p(ss);
    CHECKM(p.get_ulong("next") == 7, "the next line is read");
    CHECKM(!p.get_ulong("some") && !p.get_string("some_"), "a key that is not there has no value");
    if(n == 0) {
        CHECKM(!p.get_string("some_key") && !p.get_ulong("some_key") && !p.get_decimal("some_key"), "a key without value is absent");
        sym_cover("no value");
        return;
    }
    same_meaning(p, "some_key", m);
    // the values of other types
    CHECKM(!p.get_endpoint("next") && !p.get_loglevel("next") && !p.get_string("next") && !p.get_decimal("next"), "a value of another type is not taken");
}
// Integers around the largest representable one.
ENTRY(c30_large) {
    static const char* first[] = {"18446744073709551", "1844674407370955161", "0018446744073709551", "99999999999999999", "00000000000000"};
    std::string t = first[choose(5, "first digits")];
    auto n = t.size();
    t += "000";
    sym_bytes(t.data() + n, 3, "digits");
    for(char c : t)
        ASSUME(is_digit(c));
    auto m = understand(t);
    sym_may_refuse(m.kind == meaning::malformed);
    std::stringstream ss("k=" + t);
    parser p(ss);
    CHECKM(m.kind == meaning::number, "an integer that cannot be represented is refused");
    CHECKM(p.get_ulong("k") == m.n, "an integer is read as it is written");
    sym_cover("large");
}
// Lines: what is no assignment is skipped, the first value of a key counts.
ENTRY(c30_lines) {
    auto k = choose(TIER ? 5 : 4, "length");
    auto junk = sym_text(k, "line");
    for(char c : junk)
        ASSUME(c != '=');
    std::stringstream ss((choose(2, "first") == 1 ? junk + "\nab=1\n" : "ab=1\n" + junk + "\n") + "ab=2\n\nb=\"c=d\"\n");
    parser p(ss);
    CHECKM(p.get_ulong("ab") == 1, "the first value counts");
    CHECKM(p.get_string("b") == "c=d", "a value may hold an equals sign");
    sym_cover("lines");
}
ENTRY(c30_endpoint) {
    auto n = choose((TIER ? 6 : 5) + 1, "length");
    auto v = sym_text(n, "endpoint");
    for(char c : v)
        ASSUME(c != '"');
    size_t colons = 0, at = 0;
    for(size_t i = 0; i < n; i++)
        if(v[i] == ':') {
            if(colons == 0)
                at = i;
            colons++;
        }
    bool ok = colons == 1 && at + 1 < n;
    unsigned long port = 0;
    for(size_t i = at + 1; ok && i < n; i++) {
        if(!is_digit(v[i]))
            ok = false;
        port = port * 10 + static_cast<unsigned>(v[i] - '0');
    }
    ok = ok && port < 65536;
    sym_may_refuse(!ok || at == 0);
    std::stringstream ss("e=\"" + v + "\"");
    parser p(ss);
    auto e = p.get_endpoint("e");
    CHECKM(ok, "a malformed endpoint is refused");
    CHECKM(e.has_value() && e->second == port && e->first == v.substr(0, at), "an endpoint is read as it is written");
    sym_cover("endpoint");
}
ENTRY(c30_port) {
    auto n = 4 + choose(3, "length");
    std::string t(n, '0');
    sym_bytes(t.data(), n, "port");
    unsigned long port = 0;
    for(char c : t) {
        ASSUME(is_digit(c));
        port = port * 10 + static_cast<unsigned>(c - '0');
    }
    sym_may_refuse(port > 65535);
    auto e = cbdc::config::parse_ip_port("host.example:" + t);
    CHECKM(port <= 65535 && e.second == port, "a port is read as it is written or refused");
    CHECKM(e.first == "host.example", "with its host");
    sym_cover("port");
}
// Environment variables override the file, in the same syntax.
ENTRY(c30_env) {
    auto n = choose((TIER ? 4 : 3) + 1, "length");
    static std::string v;
    v = sym_text(n, "value");
    for(char c : v)
        ASSUME(c != 0);
    auto m = understand(v);
    set_env("A_KEY1", v.c_str());
    set_env("a_key2", "9");
    std::stringstream ss("a_key1=5\na_key2=6\n");
    parser p(ss);
    CHECKM(p.get_ulong("a_key2") == 6, "only the upper-case name counts");
    sym_may_refuse(n != 0 && (m.kind == meaning::malformed || m.kind == meaning::other));
    if(n == 0) {
        CHECKM(p.get_ulong("a_key1") == 5, "an empty variable does not count");
        sym_cover("empty variable");
        return;
    }
    same_meaning(p, "a_key1", m);
}
ENTRY(c30_loglevel) {
    static const char* names[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
    using cbdc::logging::log_level;
    static const log_level levels[] = {log_level::trace, log_level::debug, log_level::info, log_level::warn, log_level::error, log_level::fatal};
    auto n = 4 + choose(2, "length");
    auto v = sym_text(n, "level");
    for(char c : v)
        ASSUME(c != '"');
    std::stringstream ss("l=\"" + v + "\"");
    parser p(ss);
    auto l = p.get_loglevel("l");
    bool known = false;
    for(size_t i = 0; i < 6; i++)
        if(strlen(names[i]) == n && memcmp(names[i], v.data(), n) == 0) {
            known = true;
            CHECKM(l == levels[i], "a log level is read by its name");
            sym_cover("log level");
        }
    CHECKM(l.has_value() == known, "other names are no log levels");
}
ENTRY(c29_config) {
    size_t const a = 1 + choose(TIER ? 6 : 4, "start length"), b = 1 + choose(TIER ? 6 : 4, "end length");
    auto number = [](size_t n, const char* name, uint64_t& v) {
        std::string t(n, '0');
        sym_bytes(t.data(), n, name);
        v = 0;
        for(char c : t) {
            ASSUME(is_digit(c));
            v = v * 10 + static_cast<unsigned>(c - '0');
        }
        return t;
    };
    uint64_t x, y;
    auto start = number(a, "start", x), end = number(b, "end", y);
    bool two = flip("two-phase");
    auto f = write_file(std::string(two ? "2pc=1\nshard0_count=0\n" : "2pc=0\nshard0_endpoint=\"a:1\"\nshard0_db=\"d\"\n") + "shard_count=1\nshard0_start=" + start + "\nshard0_end=" + end + "\nattestation_threshold=0\n");
    auto r = cbdc::config::read_options(f);
    drop_file(f);
    bool ok = std::holds_alternative<options>(r);
    CHECKM(ok == (x <= y && y <= 255), "a range is accepted exactly if its bounds are bytes in order");
    if(ok) {
        auto& o = std::get<options>(r);
        CHECKM(o.m_shard_ranges.size() == 1 && o.m_shard_ranges[0].first == x && o.m_shard_ranges[0].second == y, "a range is read as it is written");
        sym_cover("range");
    } else
        sym_cover("refused range");
}
// One line of a configuration; whether the configuration is refused without it, and what it sets.
struct line {
    std::string key, value;
    bool required;
    void (*set)(options&);
};
static void same_options(const options& a, const options& b) {
#define SAME(f) CHECKM(a.f == b.f, "every option has its value or its default: " #f)
    SAME(m_stxo_cache_depth);
    SAME(m_window_size);
    SAME(m_input_count);
    SAME(m_output_count);
    CHECKM(memcmp(&a.m_invalid_rate, &b.m_invalid_rate, sizeof(double)) == 0, "every option has its value or its default: m_invalid_rate");
    CHECKM(memcmp(&a.m_fixed_tx_rate, &b.m_fixed_tx_rate, sizeof(double)) == 0, "every option has its value or its default: m_fixed_tx_rate");
    SAME(m_shard_completed_txs_cache_size);
    SAME(m_atomizer_endpoints);
    SAME(m_archiver_endpoints);
    SAME(m_sentinel_endpoints);
    SAME(m_watchtower_client_endpoints);
    SAME(m_watchtower_internal_endpoints);
    SAME(m_shard_endpoints);
    SAME(m_atomizer_raft_endpoints);
    SAME(m_batch_size);
    SAME(m_target_block_interval);
    SAME(m_atomizer_loglevels);
    SAME(m_election_timeout_upper);
    SAME(m_election_timeout_lower);
    SAME(m_heartbeat);
    SAME(m_snapshot_distance);
    SAME(m_raft_max_batch);
    SAME(m_shard_loglevels);
    SAME(m_shard_db_dirs);
    SAME(m_shard_ranges);
    SAME(m_seed_privkey);
    SAME(m_seed_value);
    SAME(m_seed_from);
    SAME(m_seed_to);
    SAME(m_sentinel_loglevels);
    SAME(m_archiver_loglevels);
    SAME(m_watchtower_loglevels);
    SAME(m_archiver_db_dirs);
    SAME(m_fixed_tx_mode);
    SAME(m_twophase_mode);
    SAME(m_locking_shard_endpoints);
    SAME(m_locking_shard_raft_endpoints);
    SAME(m_locking_shard_readonly_endpoints);
    SAME(m_coordinator_endpoints);
    SAME(m_coordinator_raft_endpoints);
    SAME(m_coordinator_max_threads);
    SAME(m_coordinator_loglevels);
    SAME(m_initial_mint_count);
    SAME(m_initial_mint_value);
    SAME(m_watchtower_block_cache_size);
    SAME(m_watchtower_error_cache_size);
    SAME(m_loadgen_count);
    SAME(m_attestation_threshold);
#undef SAME
    CHECKM(a.m_sentinel_private_keys.size() == b.m_sentinel_private_keys.size() && a.m_sentinel_public_keys.size() == b.m_sentinel_public_keys.size(), "no key is added or lost");
    for(const auto& k : b.m_sentinel_private_keys) {
        auto it = a.m_sentinel_private_keys.find(k.first);
        CHECKM(it != a.m_sentinel_private_keys.end() && heq(it->second, k.second), "every sentinel has its private key");
    }
    for(const auto& k : b.m_sentinel_public_keys)
        CHECKM(a.m_sentinel_public_keys.count(k) == 1, "every public key is known");
}
static auto bytes32(uint8_t first, uint8_t rest) -> hash_t {
    hash_t h;
    h.fill(rest);
    h[0] = first;
    return h;
}
using cbdc::logging::log_level;
static const std::string hex11 = "1111111111111111111111111111111111111111111111111111111111111111",
                         hex22 = "2222222222222222222222222222222222222222222222222222222222222222",
                         hexa3 = "a333333333333333333333333333333333333333333333333333333333333333";
// The configuration without one of its lines, or with that line's value of another type.
static void read_one(std::string text, const std::vector<line>& lines, void (*base)(options&)) {
    auto const part = choose(lines.size(), "line");
    bool const wrong = choose(2, "wrong type") == 1;
    options want;
    base(want);
    for(size_t i = 0; i < lines.size(); i++) {
        if(i == part && !wrong)
            continue;
        auto const& l = lines[i];
        text += l.key + "=";
        if(i == part)
            text += l.value[0] == '"' ? "1" : "\"1\"";
        else {
            text += l.value;
            if(l.set != nullptr)
                l.set(want);
        }
        text += "\n";
    }
    auto f = write_file(text);
    auto r = cbdc::config::load_options(f);
    drop_file(f);
    CHECKM(std::holds_alternative<options>(r) == !lines[part].required, "a configuration is refused exactly if a required value is missing or of another type");
    if(std::holds_alternative<options>(r)) {
        same_options(std::get<options>(r), want);
        sym_cover("optional value missing");
    } else
        sym_cover("required value missing");
}
#define L(k, v, req, what) line{k, v, req, [](options& o) { what; }}
#define NUM(k, field) L(k, "31", false, o.field = 31)
ENTRY(c30_read_2pc) {
    std::vector<line> l{
        L("sentinel0_endpoint", "\"s.example:1000\"", true, o.m_sentinel_endpoints.insert(o.m_sentinel_endpoints.begin(), {"s.example", 1000})),
        L("sentinel0_loglevel", "\"DEBUG\"", false, o.m_sentinel_loglevels[0] = log_level::debug),
        L("sentinel0_private_key", "\"" + hex11 + "\"", false, o.m_sentinel_private_keys[0] = bytes32(0x11, 0x11)),
        L("sentinel0_public_key", "\"" + hex22 + "\"", true, o.m_sentinel_public_keys.insert(bytes32(0x22, 0x22))),
        L("sentinel1_endpoint", "\"127.0.0.1:65535\"", true, o.m_sentinel_endpoints.push_back({"127.0.0.1", 65535})),
        L("sentinel1_public_key", "\"" + hexa3 + "\"", true, o.m_sentinel_public_keys.insert(bytes32(0xa3, 0x33))),
        L("attestation_threshold", "2", false, o.m_attestation_threshold = 2),
        L("shard0_count", "2", true, ),
        L("shard0_0_raft_endpoint", "\"a:1\"", true, o.m_locking_shard_raft_endpoints[0].push_back({"a", 1})),
        L("shard0_1_raft_endpoint", "\"a:2\"", true, o.m_locking_shard_raft_endpoints[0].push_back({"a", 2})),
        L("shard0_0_endpoint", "\"b:3\"", true, o.m_locking_shard_endpoints[0].push_back({"b", 3})),
        L("shard0_1_endpoint", "\"b:4\"", true, o.m_locking_shard_endpoints[0].push_back({"b", 4})),
        L("shard0_0_readonly_endpoint", "\"c:5\"", true, o.m_locking_shard_readonly_endpoints[0].push_back({"c", 5})),
        L("shard0_1_readonly_endpoint", "\"c:6\"", true, o.m_locking_shard_readonly_endpoints[0].push_back({"c", 6})),
        L("shard0_start", "0", true, ),
        L("shard0_end", "127", true, ),
        L("shard0_loglevel", "\"TRACE\"", false, o.m_shard_loglevels[0] = log_level::trace),
        L("shard1_count", "1", true, ),
        L("shard1_0_raft_endpoint", "\"a:7\"", true, o.m_locking_shard_raft_endpoints[1].push_back({"a", 7})),
        L("shard1_0_endpoint", "\"b:8\"", true, o.m_locking_shard_endpoints[1].push_back({"b", 8})),
        L("shard1_0_readonly_endpoint", "\"c:9\"", true, o.m_locking_shard_readonly_endpoints[1].push_back({"c", 9})),
        L("shard1_start", "128", true, ),
        L("shard1_end", "255", true, ),
        L("coordinator0_count", "1", true, ),
        L("coordinator0_0_endpoint", "\"d:10\"", true, o.m_coordinator_endpoints[0].push_back({"d", 10})),
        L("coordinator0_0_raft_endpoint", "\"d:11\"", true, o.m_coordinator_raft_endpoints[0].push_back({"d", 11})),
        L("coordinator0_loglevel", "\"ERROR\"", false, o.m_coordinator_loglevels[0] = log_level::error),
        NUM("coordinator_max_threads", m_coordinator_max_threads),
        NUM("shard_completed_txs_cache_size", m_shard_completed_txs_cache_size),
        L("seed_privkey", "\"" + hex11 + "\"", true, o.m_seed_privkey = bytes32(0x11, 0x11)),
        L("seed_value", "3", true, o.m_seed_value = 3),
        L("seed_from", "2", false, o.m_seed_from = 2),
        L("batch_size", "17", false, o.m_batch_size = 17),
    };
    read_one("2pc=1\nsentinel_count=2\nshard_count=2\ncoordinator_count=1\nseed_to=10\n", l, [](options& o) {
        o.m_twophase_mode = true;
        o.m_fixed_tx_mode = true;
        o.m_sentinel_loglevels.assign(2, log_level::warn);
        o.m_shard_loglevels.assign(2, log_level::warn);
        o.m_shard_ranges = {{0, 127}, {128, 255}};
        o.m_coordinator_loglevels.assign(1, log_level::warn);
        o.m_locking_shard_endpoints.resize(2);
        o.m_locking_shard_raft_endpoints.resize(2);
        o.m_locking_shard_readonly_endpoints.resize(2);
        o.m_coordinator_endpoints.resize(1);
        o.m_coordinator_raft_endpoints.resize(1);
        o.m_seed_to = 10;
    });
}
ENTRY(c30_read_atomizer) {
    std::vector<line> l{
        L("sentinel0_endpoint", "\"s.example:1000\"", true, o.m_sentinel_endpoints.push_back({"s.example", 1000})),
        L("sentinel0_loglevel", "\"DEBUG\"", false, o.m_sentinel_loglevels[0] = log_level::debug),
        L("sentinel0_private_key", "\"" + hex11 + "\"", false, o.m_sentinel_private_keys[0] = bytes32(0x11, 0x11)),
        L("sentinel0_public_key", "\"" + hex22 + "\"", true, o.m_sentinel_public_keys.insert(bytes32(0x22, 0x22))),
        L("shard0_endpoint", "\"a:1\"", true, o.m_shard_endpoints.push_back({"a", 1})),
        L("shard0_db", "\"db0\"", true, o.m_shard_db_dirs.push_back("db0")),
        L("shard0_start", "0", true, ),
        L("shard0_end", "9", true, ),
        L("shard0_loglevel", "\"FATAL\"", false, o.m_shard_loglevels[0] = log_level::fatal),
        L("shard1_endpoint", "\"a:2\"", true, o.m_shard_endpoints.push_back({"a", 2})),
        L("shard1_db", "\"db1\"", true, o.m_shard_db_dirs.push_back("db1")),
        L("shard1_start", "5", true, ),
        L("shard1_end", "255", true, ),
        L("atomizer0_endpoint", "\"b:1\"", true, o.m_atomizer_endpoints.push_back({"b", 1})),
        L("atomizer0_raft_endpoint", "\"b:2\"", true, o.m_atomizer_raft_endpoints.push_back({"b", 2})),
        L("atomizer0_loglevel", "\"INFO\"", false, o.m_atomizer_loglevels[0] = log_level::info),
        L("archiver0_endpoint", "\"c:1\"", true, o.m_archiver_endpoints.push_back({"c", 1})),
        L("archiver0_db", "\"adb\"", true, o.m_archiver_db_dirs.push_back("adb")),
        L("archiver0_loglevel", "\"INFO\"", false, o.m_archiver_loglevels[0] = log_level::info),
        L("watchtower0_client_endpoint", "\"d:1\"", true, o.m_watchtower_client_endpoints.push_back({"d", 1})),
        L("watchtower0_internal_endpoint", "\"d:2\"", true, o.m_watchtower_internal_endpoints.push_back({"d", 2})),
        L("watchtower0_loglevel", "\"INFO\"", false, o.m_watchtower_loglevels[0] = log_level::info),
        NUM("watchtower_block_cache_size", m_watchtower_block_cache_size),
        NUM("watchtower_error_cache_size", m_watchtower_error_cache_size),
        NUM("target_block_interval", m_target_block_interval),
        NUM("stxo_cache_depth", m_stxo_cache_depth),
        NUM("election_timeout_upper", m_election_timeout_upper),
        NUM("election_timeout_lower", m_election_timeout_lower),
        NUM("heartbeat", m_heartbeat),
        NUM("snapshot_distance", m_snapshot_distance),
        NUM("raft_max_batch", m_raft_max_batch),
        NUM("batch_size", m_batch_size),
        L("loadgen_sendtx_input_count", "0", false, o.m_input_count = 0; o.m_fixed_tx_mode = false),
        NUM("loadgen_sendtx_output_count", m_output_count),
        L("loadgen_invalid_tx_rate", "0.5", false, o.m_invalid_rate = 0.5),
        L("loadgen_fixed_tx_rate", "0.25", false, o.m_fixed_tx_rate = 0.25),
        NUM("window_size", m_window_size),
        NUM("initial_mint_count", m_initial_mint_count),
        NUM("initial_mint_value", m_initial_mint_value),
        NUM("loadgen_count", m_loadgen_count),
    };
    read_one("sentinel_count=1\nshard_count=2\natomizer_count=1\narchiver_count=1\nwatchtower_count=1\n", l, [](options& o) {
        o.m_fixed_tx_mode = true;
        o.m_sentinel_loglevels.assign(1, log_level::warn);
        o.m_shard_loglevels.assign(2, log_level::warn);
        o.m_shard_ranges = {{0, 9}, {5, 255}};
        o.m_atomizer_loglevels.assign(1, log_level::warn);
        o.m_archiver_loglevels.assign(1, log_level::warn);
        o.m_watchtower_loglevels.assign(1, log_level::warn);
    });
}
// Which options are consistent.
ENTRY(c30_check) {
    options o;
    auto some = [](const char* n) {
        return choose(2, n) == 1;
    };
    bool const two = flip("two-phase");
    o.m_twophase_mode = two;
    o.m_attestation_threshold = sym_u64_("threshold");
    o.m_seed_from = sym_u64_("from");
    o.m_seed_to = sym_u64_("to");
    o.m_seed_value = sym_u64_("value");
    auto sentinels = choose(3, "sentinels"), keys = choose(3, "keys");
    o.m_sentinel_endpoints.assign(sentinels, {"a", 1});
    for(size_t i = 0; i < keys; i++)
        o.m_sentinel_public_keys.insert(bytes32(static_cast<uint8_t>(i), 1));
    bool ok = o.m_attestation_threshold <= keys;
    if(two) {
        o.m_locking_shard_endpoints.resize(some("shards") ? 1 : 0);
        o.m_coordinator_endpoints.resize(some("coordinators") ? 1 : 0);
        ok = ok & (sentinels > 0) & (o.m_attestation_threshold <= sentinels) & !o.m_locking_shard_endpoints.empty() & !o.m_coordinator_endpoints.empty();
    } else {
        o.m_watchtower_client_endpoints.resize(some("watchtowers") ? 1 : 0);
        o.m_archiver_endpoints.resize(some("archivers") ? 1 : 0);
        o.m_shard_endpoints.resize(some("atomizer shards") ? 1 : 0);
        o.m_atomizer_endpoints.resize(some("atomizers") ? 1 : 0);
        ok = ok & !o.m_watchtower_client_endpoints.empty() & !o.m_archiver_endpoints.empty() & !o.m_atomizer_endpoints.empty() & ((sentinels == 0) | !o.m_shard_endpoints.empty());
    }
    ok = ok & ((o.m_seed_from == o.m_seed_to) | ((o.m_seed_from < o.m_seed_to) & (o.m_seed_value != 0)));
    auto r = cbdc::config::check_options(o);
    CHECKM(r.has_value() == !ok, "inconsistent options are refused, consistent ones are not");
    if(ok)
        sym_cover("consistent");
}
// Keys: 64 hexadecimal digits or refused.
ENTRY(c30_keys) {
    auto const which = choose(3, "key");
    std::string t = hex11;
    auto const n = choose(4, "length");
    t = n == 0 ? t.substr(2) : (n == 1 ? t.substr(1) : (n == 2 ? t : t + "11"));
    auto at = choose(2, "position") == 0 ? 0 : t.size() - 2;
    sym_bytes(t.data() + at, 2, "digits");
    bool ok = n == 2;
    uint8_t v = 0;
    for(size_t i = at; i < at + 2; i++) {
        ASSUME(t[i] != '"' && t[i] != '\n');
        auto c = static_cast<unsigned char>(t[i]);
        unsigned d = static_cast<unsigned>(c) - '0', a = static_cast<unsigned>(c | 32U) - 'a';
        ok = ok & ((d < 10) | (a < 6));
        v = static_cast<uint8_t>(v * 16 + (d < 10 ? d : a + 10));
    }
    std::string text = "sentinel_count=1\nsentinel0_endpoint=\"a:1\"\nshard_count=0\nseed_from=1\n";
    if(which == 0)
        text += "sentinel0_private_key=\"" + t + "\"\nsentinel0_public_key=\"" + hex22 + "\"\n";
    else if(which == 1)
        text += "sentinel0_public_key=\"" + t + "\"\n";
    else
        text += "sentinel0_public_key=\"" + hex22 + "\"\nseed_to=4\nseed_privkey=\"" + t + "\"\n";
    text += which == 2 ? "" : "seed_to=1\n";
    auto f = write_file(text);
    auto r = cbdc::config::read_options(f);
    drop_file(f);
    CHECKM(std::holds_alternative<options>(r) == ok, "a key is accepted exactly if it consists of 64 hexadecimal digits");
    if(!ok) {
        sym_cover("refused key");
        return;
    }
    auto& o = std::get<options>(r);
    auto want = bytes32(0x11, 0x11);
    want[at / 2] = v;
    auto const& got = which == 0 ? o.m_sentinel_private_keys.at(0) : (which == 1 ? *o.m_sentinel_public_keys.begin() : *o.m_seed_privkey);
    CHECKM(heq(got, want), "a key is read as it is written");
    sym_cover("key");
}
