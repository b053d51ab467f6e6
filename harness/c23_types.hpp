// The message types of the system.
#ifndef VERIF_C23_TYPES_HPP
#define VERIF_C23_TYPES_HPP
#include "gen.hpp"
#include "parsec/agent/format.hpp"
#include "parsec/agent/messages.hpp"
#include "parsec/runtime_locking_shard/format.hpp"
#include "parsec/runtime_locking_shard/messages.hpp"
#include "parsec/ticket_machine/messages.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/atomizer/messages.hpp"
#include "uhs/atomizer/watchtower/tx_error_messages.hpp"
#include "uhs/atomizer/watchtower/watchtower.hpp"
#include "uhs/sentinel/format.hpp"
#include "uhs/sentinel/interface.hpp"
#include "uhs/transaction/messages.hpp"
#include "uhs/twophase/coordinator/format.hpp"
#include "uhs/twophase/coordinator/messages.hpp"
#include "uhs/twophase/locking_shard/format.hpp"
#include "uhs/twophase/locking_shard/messages.hpp"
#include "uhs/twophase/locking_shard/status_messages.hpp"
#include "util/raft/serialization.hpp"
#include "util/rpc/format.hpp"
#include "util/rpc/messages.hpp"
namespace vf {
    namespace tx = cbdc::transaction;
    namespace val = cbdc::transaction::validation;
    namespace wt = cbdc::watchtower;
    namespace at = cbdc::atomizer;
    namespace sen = cbdc::sentinel;
    namespace ls = cbdc::locking_shard;
    namespace co = cbdc::coordinator;
    namespace rs = cbdc::parsec::runtime_locking_shard;
    template<> struct n_fields<tx::out_point> { static constexpr size_t value = 2; };
    template<> struct n_fields<tx::output> { static constexpr size_t value = 2; };
    template<> struct n_fields<tx::input> { static constexpr size_t value = 2; };
    template<> struct n_fields<tx::full_tx> { static constexpr size_t value = 3; };
    template<> struct n_fields<tx::compact_tx> { static constexpr size_t value = 4; };
    template<> struct base_of<sen::execute_request> { using type = tx::full_tx; };
    template<> struct base_of<sen::validate_request> { using type = tx::full_tx; };
    // Watchtower classes, through their public interface
    template<> struct G<wt::tx_error_inputs_dne> {
        using T = wt::tx_error_inputs_dne;
        static auto make(const shape& s) -> T { return T(gen<std::vector<hash_t>>(s)); }
        static auto same(const T& a, const T& b) -> bool { return eq(a.input_uhs_ids(), b.input_uhs_ids()); }
    };
    template<> struct G<wt::tx_error_inputs_spent> {
        using T = wt::tx_error_inputs_spent;
        static auto make(const shape& s) -> T { return T(gen<std::unordered_set<hash_t, cbdc::hashing::null>>(s)); }
        static auto same(const T& a, const T& b) -> bool { return eq(a.input_uhs_ids(), b.input_uhs_ids()); }
    };
    template<class T> struct empty_gen {
        static auto make(const shape&) -> T { return T{}; }
        static auto same(const T&, const T&) -> bool { return true; }
    };
    template<> struct G<wt::tx_error_sync> : empty_gen<wt::tx_error_sync> {};
    template<> struct G<wt::tx_error_stxo_range> : empty_gen<wt::tx_error_stxo_range> {};
    template<> struct G<wt::tx_error_incomplete> : empty_gen<wt::tx_error_incomplete> {};
    template<> struct G<wt::best_block_height_request> : empty_gen<wt::best_block_height_request> {};
    template<> struct G<ls::rpc::discard_params> : empty_gen<ls::rpc::discard_params> {};
    template<> struct G<ls::rpc::apply_response> : empty_gen<ls::rpc::apply_response> {};
    template<> struct G<ls::rpc::discard_response> : empty_gen<ls::rpc::discard_response> {};
    template<> struct G<wt::tx_error> {
        using T = wt::tx_error;
        static auto make(const shape& s) -> T {
            auto id = gen<hash_t>(s);
            return std::visit(
                [&](auto&& e) {
                    return T(id, e);
                },
                gen<wt::tx_error_info>(s));
        }
        static auto same(const T& a, const T& b) -> bool { return eq(a.tx_id(), b.tx_id()) && eq(a.info(), b.info()); }
    };
    template<> struct G<wt::best_block_height_response> {
        using T = wt::best_block_height_response;
        static auto make(const shape& s) -> T { return T(gen<uint64_t>(s)); }
        static auto same(const T& a, const T& b) -> bool { return a.height() == b.height(); }
    };
    template<> struct G<wt::status_update_request> {
        using T = wt::status_update_request;
        static auto make(const shape& s) -> T { return T(gen<wt::tx_id_uhs_ids>(s)); }
        static auto same(const T& a, const T& b) -> bool { return eq(a.uhs_ids(), b.uhs_ids()); }
    };
    template<> struct G<wt::status_update_state> {
        using T = wt::status_update_state;
        static auto make(const shape& s) -> T {
            auto st = gen<wt::search_status>(s);
            auto h = gen<uint64_t>(s);
            return T(st, h, gen<hash_t>(s));
        }
        static auto same(const T& a, const T& b) -> bool {
            return a.status() == b.status() && a.block_height() == b.block_height() && eq(a.uhs_id(), b.uhs_id());
        }
    };
    template<> struct G<wt::status_request_check_success> {
        using T = wt::status_request_check_success;
        static auto make(const shape& s) -> T { return T(gen<wt::tx_id_states>(s)); }
        static auto same(const T& a, const T& b) -> bool { return eq(a.states(), b.states()); }
    };
    template<> struct G<wt::request> {
        using T = wt::request;
        static auto make(const shape& s) -> T { return T(gen<T::request_t>(s)); }
        static auto same(const T& a, const T& b) -> bool { return eq(a.payload(), b.payload()); }
    };
    template<> struct G<wt::response> {
        using T = wt::response;
        static auto make(const shape& s) -> T { return T(gen<T::response_t>(s)); }
        static auto same(const T& a, const T& b) -> bool { return eq(a.payload(), b.payload()); }
    };
    template<class... Ts> struct list {};
    template<size_t I, class F, class T, class... R> void at_index(size_t k, F& f, list<T, R...>) {
        if(k == I)
            return f(static_cast<T*>(nullptr));
        if constexpr(sizeof...(R) > 0)
            at_index<I + 1>(k, f, list<R...>{});
    }
    template<class... Ts, class F> void one_of(list<Ts...> l, F f) {
        at_index<0>(choose(sizeof...(Ts), "type"), f, l);
    }
    using tx_types = list<tx::out_point, tx::output, tx::input, tx::full_tx, tx::compact_tx, std::optional<val::tx_error>, val::input_error, val::output_error, val::witness_error>;
    using sentinel_types = list<sen::request, sen::response, sen::execute_response, cbdc::rpc::request<sen::request>, cbdc::rpc::response<sen::response>>;
    using twophase_types = list<ls::tx, ls::rpc::request, ls::rpc::response, ls::rpc::status_request, ls::rpc::status_response, cbdc::rpc::request<ls::rpc::request>, cbdc::rpc::response<ls::rpc::response>,
        cbdc::rpc::request<co::rpc::request>, cbdc::rpc::response<co::rpc::response>>;
    using atomizer_types = list<at::block, at::tx_notify_request, at::aggregate_tx_notification, at::aggregate_tx_notify_request, at::get_block_response, at::make_block_response, at::request, cbdc::rpc::request<at::get_block_request>, std::unordered_map<uint64_t, at::block>>;
    using watchtower_types = list<wt::tx_error, wt::request, wt::response, wt::tx_error_inputs_dne, wt::tx_error_inputs_spent, wt::status_update_request, wt::status_update_state, wt::status_request_check_success, wt::best_block_height_response,
        std::vector<wt::tx_error>>;
    using parsec_types = list<rs::rpc::request, rs::rpc::response, rs::rpc::replicated_request, rs::rpc::replicated_response, cbdc::rpc::request<rs::rpc::request>, cbdc::rpc::response<rs::rpc::response>,
        cbdc::parsec::ticket_machine::rpc::request, cbdc::parsec::ticket_machine::rpc::response, cbdc::parsec::agent::rpc::request, cbdc::parsec::agent::rpc::response, rs::replicated_shard_interface::tickets_type>;
    using basic_types = list<bool, uint8_t, uint16_t, uint32_t, uint64_t, int64_t, std::optional<uint8_t>, std::optional<bool>, std::pair<uint8_t, uint64_t>, std::vector<bool>, std::vector<uint32_t>, cbdc::buffer, std::set<hash_t>,
        std::unordered_set<uint64_t>, std::unordered_map<uint64_t, bool>, std::array<uint64_t, 3>, std::variant<uint8_t, bool, std::vector<uint16_t>>, std::optional<std::optional<uint8_t>>, std::set<uint8_t>>;
}
#endif
