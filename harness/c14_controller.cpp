// The watchtower's controller: blocks from atomizers, errors from shards, requests from clients.
#include "common.hpp"
#include "netstub.hpp"
#include "uhs/atomizer/atomizer/format.hpp"
#include "uhs/atomizer/watchtower/controller.hpp"
#include "uhs/atomizer/watchtower/messages.hpp"
#include "uhs/atomizer/watchtower/status_update_messages.hpp"
#include "uhs/transaction/messages.hpp"
#include "util/serialization/util.hpp"
using namespace vf;
namespace wt = cbdc::watchtower;
namespace {
    std::vector<cbdc::atomizer::block> g_chain;
    uint64_t g_fail;
}
namespace cbdc::archiver {
    client::client(network::endpoint_t e, std::shared_ptr<logging::log> l) : m_endpoint(std::move(e)), m_logger(std::move(l)) {}
    auto client::init() -> bool { return true; }
    auto client::get_block(uint64_t h) -> std::optional<cbdc::atomizer::block> {
        if(g_fail > 0 && choose(2, "archiver has it") == 0) {
            g_fail--;
            sym_cover("archiver lags");
            return std::nullopt;
        }
        CHECKM(h >= 1 && h <= g_chain.size(), "only existing blocks are fetched");
        return g_chain[h - 1];
    }
}
namespace {
    auto msg(cbdc::buffer b) -> cbdc::network::message_t {
        cbdc::network::message_t m;
        m.m_pkt = std::make_shared<cbdc::buffer>(std::move(b));
        return m;
    }
}
ENTRY(c14_controller) {
    g_fail = 1;
    for(uint64_t h = 1; h <= 4; h++) {
        cbdc::atomizer::block b;
        b.m_height = h;
        cbdc::transaction::compact_tx t;
        t.m_id = id(0x11, static_cast<uint8_t>(0x80 + h));
        t.m_uhs_outputs.push_back(id(0x22, static_cast<uint8_t>(h)));
        if(h > 1)
            t.m_inputs.push_back(id(0x22, static_cast<uint8_t>(h - 1)));
        b.m_transactions.push_back(t);
        g_chain.push_back(b);
    }
    cbdc::config::options o;
    o.m_watchtower_block_cache_size = 2;
    o.m_watchtower_error_cache_size = 2;
    o.m_archiver_endpoints.emplace_back("a", 1);
    o.m_watchtower_internal_endpoints.emplace_back("i", 1);
    o.m_watchtower_client_endpoints.emplace_back("c", 1);
    wt::controller c(0, o, quiet_log());
    uint64_t h = 0;
    for(int i = 0; i < (TIER ? 3 : 2); i++) {
        auto k = choose(g_chain.size(), "block");
        auto buf = cbdc::make_buffer(g_chain[k]);
        bool cut = choose(2, "truncated") == 1;
        if(cut) {
            cbdc::buffer s;
            s.append(buf.data(), buf.size() - 1);
            buf = s;
        }
        CHECKM(!c.atomizer_handler(msg(buf)).has_value(), "blocks are not answered");
        if(!cut && k + 1 > h)
            h = k + 1;
        CHECKM(c.get_block_height() == h, "missed blocks are fetched, old ones ignored");
    }
    bool err = choose(2, "error") == 1;
    auto bad = id(0x33, 0x55);
    if(err) {
        std::vector<wt::tx_error> v{wt::tx_error(bad, wt::tx_error_sync{})};
        CHECKM(!c.internal_server_handler(msg(cbdc::make_buffer(v))).has_value(), "errors are not answered");
    }
    if(choose(2, "request") == 0) {
        wt::tx_id_uhs_ids q;
        q.insert({bad, {id(0x22, 9)}});
        for(const auto& b : g_chain)
            q.insert({b.m_transactions[0].m_id, {b.m_transactions[0].m_uhs_outputs[0]}});
        auto r = c.external_server_handler(msg(cbdc::make_buffer(wt::request(wt::status_update_request(q)))));
        CHECKM(r.has_value(), "a request is answered");
        cbdc::buffer_serializer d(*r);
        wt::response resp(d);
        const auto& st = std::get<wt::status_request_check_success>(resp.payload()).states();
        CHECKM(st.size() == q.size(), "every transaction is answered");
        CHECKM(st.at(bad)[0].status() == (err ? wt::search_status::internal_error : wt::search_status::no_history), "errors from shards are reported");
        for(const auto& b : g_chain) {
            auto s = st.at(b.m_transactions[0].m_id)[0];
            bool in = b.m_height <= h && b.m_height + 2 > h && b.m_height == h; // spent by the next block of the chain
            CHECKM((s.status() == wt::search_status::unspent) == in, "the newest block's outputs are unspent");
            if(in)
                sym_cover("unspent");
        }
    } else {
        auto r = c.external_server_handler(msg(cbdc::make_buffer(wt::request(wt::best_block_height_request()))));
        CHECKM(r.has_value(), "a request is answered");
        cbdc::buffer_serializer d(*r);
        wt::response resp(d);
        CHECKM(std::get<wt::best_block_height_response>(resp.payload()).height() == h, "the best height is answered");
        sym_cover("height");
    }
}
