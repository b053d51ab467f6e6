// C24: decoding untrusted bytes.
#include "c23_types.hpp"
#include "util/serialization/istream_serializer.hpp"
#include "util/serialization/ostream_serializer.hpp"
#include <fstream>
using namespace vf;
// Types with sets or maps accept repeated keys, so what they accept may encode differently; their size is still bounded.
template<class T> constexpr bool unordered_inside = false;
template<class T> constexpr bool canonical = !unordered_inside<T>;
#define LOOSE(T) template<> constexpr bool unordered_inside<T> = true
LOOSE(tx::compact_tx);
LOOSE(ls::tx);
LOOSE(ls::rpc::request);
LOOSE(cbdc::rpc::request<ls::rpc::request>);
LOOSE(cbdc::rpc::request<co::rpc::request>);
LOOSE(at::block);
LOOSE(at::tx_notify_request);
LOOSE(at::aggregate_tx_notification);
LOOSE(at::aggregate_tx_notify_request);
LOOSE(at::get_block_response);
LOOSE(at::make_block_response);
LOOSE(at::request);
using blocks = std::unordered_map<uint64_t, at::block>;
LOOSE(blocks);
LOOSE(wt::tx_error);
LOOSE(wt::request);
LOOSE(wt::response);
LOOSE(wt::tx_error_inputs_spent);
LOOSE(wt::status_update_request);
LOOSE(wt::status_request_check_success);
LOOSE(std::vector<wt::tx_error>);
LOOSE(rs::rpc::request);
LOOSE(rs::rpc::response);
LOOSE(rs::rpc::replicated_request);
LOOSE(rs::rpc::replicated_response);
LOOSE(cbdc::rpc::request<rs::rpc::request>);
LOOSE(cbdc::rpc::response<rs::rpc::response>);
LOOSE(cbdc::parsec::agent::rpc::response);
LOOSE(rs::replicated_shard_interface::tickets_type);
LOOSE(std::set<hash_t>);
LOOSE(std::set<uint8_t>);
LOOSE(std::unordered_set<uint64_t>);
using umb = std::unordered_map<uint64_t, bool>;
LOOSE(umb);
// A list of truth values splits every path at each of its bytes: shorter data for the types that have one.
template<class T> constexpr size_t bools_from = 0; // offset at which such a list starts
#define BOOLS(T, at) template<> constexpr size_t bools_from<T> = at
BOOLS(std::vector<bool>, 8);
BOOLS(umb, 8);
BOOLS(std::set<uint8_t>, 5); // and so do keys that are compared
BOOLS(std::unordered_set<uint64_t>, 26);
BOOLS(std::vector<std::vector<uint8_t>>, 20);
BOOLS(ls::rpc::request, 41);
BOOLS(cbdc::rpc::request<ls::rpc::request>, 49);
BOOLS(ls::rpc::response, 9);
BOOLS(cbdc::rpc::response<ls::rpc::response>, 18);
template<class T> auto length(size_t most) -> size_t {
    if(bools_from<T> != 0)
        most = std::min(most, bools_from<T> + (TIER ? 9 : 6));
    if(TIER)
        return sym_choice_(most + 1, "length");
    auto n = sym_choice_(most + 1, "length"); // every length up to 16, then those next to a multiple of eight
    if(n > 16 && n % 8 > 1)
        sym_end();
    return n;
}
#define GARBAGE(name, types, quick, deep)                               \
    ENTRY(name) {                                                       \
        one_of(types{}, [&](auto* t) {                                  \
            using T = std::remove_pointer_t<decltype(t)>;               \
            garbage<T>(length<T>(TIER ? (deep) : (quick)), canonical<T>); \
        });                                                             \
    }
GARBAGE(c24_basic, basic_types, 34, 60)
GARBAGE(c24_transactions, tx_types, 65, 130)
GARBAGE(c24_sentinel, sentinel_types, 65, 130)
GARBAGE(c24_twophase, twophase_types, 72, 130)
GARBAGE(c24_atomizer, atomizer_types, 72, 130)
GARBAGE(c24_watchtower, watchtower_types, 72, 130)
GARBAGE(c24_parsec, parsec_types, 49, 80)
#define TRUNCATED(name, types)                                          \
    ENTRY(name) {                                                       \
        shape s;                                                        \
        s.n = 1;                                                        \
        s.lo = 1;                                                       \
        s.bytes = 1;                                                    \
        one_of(types{}, [&](auto* t) {                                  \
            truncated<std::remove_pointer_t<decltype(t)>>(s);           \
        });                                                             \
    }
TRUNCATED(c24_cut_basic, basic_types)
TRUNCATED(c24_cut_transactions, tx_types)
TRUNCATED(c24_cut_sentinel, sentinel_types)
TRUNCATED(c24_cut_twophase, twophase_types)
TRUNCATED(c24_cut_atomizer, atomizer_types)
TRUNCATED(c24_cut_watchtower, watchtower_types)
TRUNCATED(c24_cut_parsec, parsec_types)
