// C23: every message survives serialisation unchanged.
#include "c23_types.hpp"
#include "util/raft/messages.hpp"
#include "util/serialization/istream_serializer.hpp"
#include "util/serialization/ostream_serializer.hpp"
#include <fstream>
using namespace vf;
#define ROUNDTRIP(name, types, n_quick, n_deep)                         \
    ENTRY(name) {                                                       \
        shape s;                                                        \
        s.n = TIER ? (n_deep) : (n_quick);                              \
        one_of(types{}, [&](auto* t) {                                  \
            roundtrip<std::remove_pointer_t<decltype(t)>>(s);           \
        });                                                             \
    }
ROUNDTRIP(c23_basic, basic_types, 2, 3)
ROUNDTRIP(c23_transactions, tx_types, 2, 2)
ROUNDTRIP(c23_sentinel, sentinel_types, 2, 3)
ROUNDTRIP(c23_twophase, twophase_types, 2, 3)
ROUNDTRIP(c23_atomizer, atomizer_types, 2, 3)
ROUNDTRIP(c23_watchtower, watchtower_types, 2, 3)
ROUNDTRIP(c23_parsec, parsec_types, 2, 3)
// The same bytes whichever serializer carries the value.
template<class T> void carriers(const shape& s) {
    const auto x = gen<T>(s);
    auto want = cbdc::make_buffer(x);
    auto same = [&](const T& y, cbdc::serializer& deser) {
        CHECKM(static_cast<bool>(deser), "an encoded value is refused");
        CHECKM(eq(x, y), "a decoded value differs from the one encoded");
        CHECKM(deser.end_of_buffer(), "decoding does not consume the whole encoding");
    };
    if(flip("file")) {
        {
            std::ofstream out("value.dat", std::ios::binary | std::ios::trunc);
            auto ser = cbdc::ostream_serializer(out);
            ser << x;
            CHECK(static_cast<bool>(ser));
        }
        std::ifstream in("value.dat", std::ios::binary);
        auto raw = cbdc::buffer();
        raw.extend(want.size());
        {
            auto deser = cbdc::istream_serializer(in);
            for(size_t i = 0; i < want.size(); i++)
                CHECK(deser.read(raw.data_at(i), 1));
            CHECKM(raw == want, "a file holds different bytes");
            CHECK(deser.end_of_buffer());
            deser.reset();
            CHECK(!deser.end_of_buffer() || want.size() == 0);
            decode<T>(deser, [&](const T& y) {
                same(y, deser);
            });
            uint8_t more{};
            CHECKM(!deser.read(&more, 1) && !deser, "reading past the end of a file succeeds");
            deser.reset();
            if(want.size() > 8) {
                deser.advance_cursor(8);
                CHECK(deser.read(&more, 1) && more == want.c_ptr()[8]);
            }
        }
        sym_cover("file");
    } else {
        auto n = nuraft::buffer::alloc(want.size());
        auto ser = cbdc::nuraft_serializer(*n);
        ser << x;
        CHECK(static_cast<bool>(ser));
        CHECKM(ser.end_of_buffer(), "the encoding is shorter than predicted");
        uint8_t more{};
        CHECKM(!ser.write(&more, 1) && !ser, "writing past the end of a replicated entry succeeds");
        ser.reset();
        CHECKM(std::memcmp(n->data_begin(), want.data(), want.size()) == 0, "a replicated entry holds different bytes");
        decode<T>(ser, [&](const T& y) {
            same(y, ser);
        });
        CHECKM(!ser.read(&more, 1) && !ser, "reading past the end of a replicated entry succeeds");
        ser.reset();
        if(want.size() > 8) {
            ser.advance_cursor(8);
            CHECK(ser.read(&more, 1) && more == want.c_ptr()[8]);
        }
        auto copy = cbdc::make_buffer(n); // a replicated entry is sent as its raw bytes
        CHECKM(copy == want, "a replicated entry changes when it is sent");
        sym_cover("replicated entry");
    }
}
using carried = list<tx::full_tx, tx::compact_tx, std::vector<tx::out_point>, ls::rpc::request, at::aggregate_tx_notify_request, rs::rpc::replicated_request, std::unordered_map<hash_t, tx::output, cbdc::hashing::null>, std::optional<cbdc::buffer>>;
ENTRY(c23_carriers) {
    shape s;
    s.n = TIER ? 2 : 1;
    one_of(carried{}, [&](auto* t) {
        carriers<std::remove_pointer_t<decltype(t)>>(s);
    });
}
// Collections larger than what is reserved at once: elements that look large in memory, so that few of them fill a step.
template<size_t N> struct wide {
    uint8_t v{};
    std::array<uint8_t, N> pad{};
    bool operator==(const wide& o) const { return v == o.v; }
};
template<size_t N> struct std::hash<wide<N>> {
    auto operator()(const wide<N>&) const -> size_t { return 0; }
};
namespace cbdc {
    template<size_t N> auto operator<<(serializer& s, const wide<N>& w) -> serializer& {
        return s << w.v;
    }
    template<size_t N> auto operator>>(serializer& s, wide<N>& w) -> serializer& {
        return s >> w.v;
    }
}
ENTRY(c23_large) {
    using W = wide<cbdc::config::maximum_reservation / 2 - 1>; // two fit into one step
    auto n = choose(TIER ? 8 : 6, "elements");
    std::vector<uint8_t> v;
    for(size_t i = 0; i < n; i++)
        v.push_back(sym_u8_("element"));
    cbdc::buffer b;
    auto ser = cbdc::buffer_serializer(b);
    ser << v;
    auto check = [&](auto got) {
        auto deser = cbdc::buffer_serializer(b);
        deser >> got;
        CHECK(static_cast<bool>(deser) && deser.end_of_buffer());
        CHECKM(got.size() == n, "a large collection changed its size");
        return got;
    };
    switch(choose(2, "collection")) {
        case 0: {
            auto got = check(std::vector<W>());
            for(size_t i = 0; i < n; i++)
                CHECKM(got[i].v == v[i], "a large collection changed its contents");
            sym_cover("large vector");
            break;
        }
        default:
            for(size_t i = 0; i < n; i++)
                for(size_t j = 0; j < i; j++)
                    ASSUME(v[i] != v[j]);
            auto got = check(std::unordered_set<W>());
            for(size_t i = 0; i < n; i++) {
                bool found = false;
                for(const auto& w : got)
                    found = found || w.v == v[i];
                CHECKM(found, "a large collection changed its contents");
            }
            sym_cover("large set");
            break;
    }
}
// A command of the coordinator's replicated log: the header, then the data its kind calls for.
ENTRY(c23_commands) {
    using C = co::controller;
    shape s;
    s.n = TIER ? 2 : 1;
    C::sm_command c;
    auto kind = choose(5, "command");
    c.m_header.m_comm = static_cast<co::state_machine::command>(kind);
    c.m_header.m_dtx_id = gen<std::optional<hash_t>>(s);
    bool has = c.m_header.m_comm == co::state_machine::command::prepare || c.m_header.m_comm == co::state_machine::command::commit;
    if(c.m_header.m_comm == co::state_machine::command::prepare)
        c.m_data = gen<C::prepare_tx>(s);
    if(c.m_header.m_comm == co::state_machine::command::commit)
        c.m_data = gen<C::commit_tx>(s);
    auto b = cbdc::make_buffer(c);
    auto deser = cbdc::buffer_serializer(b);
    C::sm_command_header h;
    deser >> h;
    CHECK(static_cast<bool>(deser));
    CHECKM(h.m_comm == c.m_header.m_comm && eq(h.m_dtx_id, c.m_header.m_dtx_id), "the header of a command changed");
    if(has && c.m_data->index() == 0) {
        C::prepare_tx d;
        deser >> d;
        CHECKM(static_cast<bool>(deser) && eq(d, std::get<C::prepare_tx>(*c.m_data)), "the data of a prepare command changed");
    } else if(has) {
        C::commit_tx d;
        deser >> d;
        CHECKM(static_cast<bool>(deser) && eq(d, std::get<C::commit_tx>(*c.m_data)), "the data of a commit command changed");
    }
    CHECK(deser.end_of_buffer());
    sym_cover("command");
}
// The answer to a query for the state: the entries as they were replicated, read back as what they hold.
ENTRY(c23_state) {
    using C = co::controller;
    shape s;
    auto want = gen<C::coordinator_state>(s);
    auto entry = [](const auto& v) {
        auto n = nuraft::buffer::alloc(cbdc::serialized_size(v));
        auto ser = cbdc::nuraft_serializer(*n);
        ser << v;
        return n;
    };
    co::state_machine::coordinator_state st;
    for(const auto& [k, v] : want.m_prepare_txs)
        st.m_prepare_txs.emplace(k, entry(v));
    for(const auto& [k, v] : want.m_commit_txs)
        st.m_commit_txs.emplace(k, entry(v));
    for(const auto& k : want.m_discard_txs)
        st.m_discard_txs.insert(k);
    auto b = cbdc::make_buffer(st);
    CHECK(cbdc::serialized_size(st) == b.size());
    auto deser = cbdc::buffer_serializer(b);
    C::coordinator_state got;
    deser >> got;
    CHECK(static_cast<bool>(deser) && deser.end_of_buffer());
    CHECKM(eq(got, want), "the recovered state differs");
    sym_cover("state");
}
