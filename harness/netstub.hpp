// Stands in for the sockets below the controllers: what they send is recorded, nothing is connected.
// Include in exactly one translation unit; do not link src/util/network.
#ifndef NETSTUB_HPP
#define NETSTUB_HPP
#include "util/network/connection_manager.hpp"
#include <functional>
#include <map>
#include <vector>
namespace netstub {
    struct sent {
        const cbdc::network::connection_manager* m_net;
        std::shared_ptr<cbdc::buffer> m_pkt;
        bool m_all;
        size_t m_peer;
    };
    inline auto log() -> std::vector<sent>& {
        static std::vector<sent> l;
        return l;
    }
    struct hooks {
        std::function<void(const sent&)> on_send;
        bool reachable{true};
        std::function<bool(const cbdc::network::connection_manager*, size_t)> connected;
        std::function<std::thread(const cbdc::network::packet_handler_t&)> server_thread; // serves the port, if set
    };
    // What was connected or opened, in that order, and who handles what arrives there.
    struct port {
        const cbdc::network::connection_manager* m_net;
        std::vector<cbdc::network::endpoint_t> m_endpoints;
        cbdc::network::packet_handler_t m_handler;
        bool m_server;
        bool m_closed{false};
    };
    inline auto ports() -> std::vector<port>& {
        static std::vector<port> p;
        return p;
    }
    inline auto port_of(const cbdc::network::connection_manager* n) -> port& {
        for(auto& p : ports())
            if(p.m_net == n)
                return p;
        ports().push_back(port{n, {}, {}, false});
        return ports().back();
    }
    inline auto to(const cbdc::network::endpoint_t& e, bool server = false) -> port* {
        for(auto& p : ports())
            if(p.m_server == server && p.m_endpoints.size() == 1 && p.m_endpoints[0] == e)
                return &p;
        return nullptr;
    }
    // A packet arrives; the handler's answer, if it gives one at once.
    inline auto arrive(port& p, cbdc::buffer b, size_t peer = 0) -> std::optional<cbdc::buffer> {
        auto h = p.m_handler;
        return h(cbdc::network::message_t{std::make_shared<cbdc::buffer>(std::move(b)), peer});
    }
    inline auto hook() -> hooks& {
        static hooks h;
        return h;
    }
    inline void note(const cbdc::network::connection_manager* n, const std::shared_ptr<cbdc::buffer>& p, bool all, size_t peer) {
        sent s{n, p, all, peer};
        log().push_back(s);
        if(hook().on_send)
            hook().on_send(s);
    }
    inline auto of(const cbdc::network::connection_manager& n) -> std::vector<std::shared_ptr<cbdc::buffer>> {
        std::vector<std::shared_ptr<cbdc::buffer>> r;
        for(const auto& s : log())
            if(s.m_net == &n)
                r.push_back(s.m_pkt);
        return r;
    }
}
namespace cbdc::network {
    socket::socket() = default;
    auto socket::create_socket(int, int, int) -> bool { return false; }
    auto socket::set_sockopts() -> bool { return false; }
    tcp_listener::~tcp_listener() = default;
    tcp_socket::~tcp_socket() = default;
    socket_selector::~socket_selector() = default;
    peer::~peer() = default;
    connection_manager::~connection_manager() = default;
    void connection_manager::broadcast(const std::shared_ptr<buffer>& d) { netstub::note(this, d, true, 0); }
    auto connection_manager::cluster_connect(const std::vector<endpoint_t>& e, bool) -> bool {
        netstub::port_of(this).m_endpoints = e;
        netstub::port_of(this).m_closed = false;
        return true;
    }
    auto connection_manager::start_cluster_handler(const std::vector<endpoint_t>&, const packet_handler_t&) -> std::optional<std::thread> {
        return std::thread();
    }
    auto connection_manager::start_server(const endpoint_t& e, const packet_handler_t& h) -> std::optional<std::thread> {
        netstub::port_of(this) = {this, {e}, h, true};
        if(netstub::hook().server_thread)
            return netstub::hook().server_thread(h);
        return std::thread();
    }
    auto connection_manager::start_handler(const packet_handler_t& h) -> std::thread {
        netstub::port_of(this).m_handler = h;
        return {};
    }
    auto tcp_socket::connect(const endpoint_t&) -> bool { return true; }
    auto connection_manager::add(std::unique_ptr<tcp_socket>, bool) -> peer_id_t { return m_next_peer_id++; }
    void connection_manager::close() { netstub::port_of(this).m_closed = true; }
    void connection_manager::send(const std::shared_ptr<buffer>& d, peer_id_t p) { netstub::note(this, d, false, p); }
    auto connection_manager::peer_count() -> size_t { return 1; }
    auto connection_manager::send_to_one(const std::shared_ptr<buffer>& d) -> bool {
        if(netstub::port_of(this).m_closed)
            return false;
        netstub::note(this, d, false, 0);
        return netstub::hook().reachable;
    }
    auto connection_manager::connected(peer_id_t p) -> bool { return !netstub::hook().connected || netstub::hook().connected(this, p); }
    auto connection_manager::connected_to_one() -> bool { return true; }
}
#endif
