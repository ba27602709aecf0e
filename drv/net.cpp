// Analysis driver for the connection layer: the server templates over a stand-in socket whose
// asynchronous operations are visible calls. Never executed; compiled to LLVM IR only.
#include <cachelot/common.h>
#include <server/network.h>
#include <cstdint>
using cachelot::error_code;
using std::size_t;

extern "C" {
    // (buffer, length, stream socket / peer, handler object, completion, disposal)
    void drv_start_read(const void *, size_t, void *, void *, void (*)(void *, int, size_t), void (*)(void *));
    void drv_start_write(const void *, size_t, void *, void *, void (*)(void *, int, size_t), void (*)(void *));
    void drv_start_write_some(const void *, size_t, void *, void *, void (*)(void *, int, size_t), void (*)(void *));
    void drv_start_recvfrom(const void *, size_t, void *, void *, void *, void (*)(void *, int, size_t), void (*)(void *));
    void drv_start_sendto(const void *, size_t, void *, const void *, void *, void (*)(void *, int, size_t), void (*)(void *));
    void drv_start_accept(void *, void *, void *, void (*)(void *, int), void (*)(void *));
    void drv_sock_close(void *) noexcept;
    void drv_sock_shutdown(void *) noexcept;
    void drv_sock_cancel(void *) noexcept;
    bool drv_sock_is_open(const void *) noexcept;
    void drv_acc_close(void *) noexcept;
    void drv_acc_setup(void *);
}
template <class H> struct Done {
    static void done(void * h, int e, size_t n) { const error_code ec(e, boost::asio::error::get_system_category()); (*static_cast<H *>(h))(ec, n); }
    static void drop(void * h) { static_cast<H *>(h)->~H(); }
};
template <class H> struct Done1 {
    static void done(void * h, int e) { const error_code ec(e, boost::asio::error::get_system_category()); (*static_cast<H *>(h))(ec); }
    static void drop(void * h) { static_cast<H *>(h)->~H(); }
};
struct MSock;
struct MAcc;
struct MProto {
    struct endpoint { std::uint64_t id; MProto protocol() const { return MProto(); } };
    typedef MAcc acceptor;
    typedef MSock socket;
};
struct MSock {
    typedef MProto protocol_type;
    typedef MProto::endpoint endpoint_type;
    typedef MSock lowest_layer_type;
    typedef boost::asio::io_service::executor_type executor_type;
    struct reuse_address { explicit reuse_address(bool) {} };
    enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
    std::uint64_t fd;
    explicit MSock(boost::asio::io_service &) : fd(0) {}
    MSock(const MSock &) = delete;
    ~MSock() { drv_sock_close(this); }
    bool is_open() const { return drv_sock_is_open(this); }
    error_code close(error_code & e) { drv_sock_close(this); e = error_code(); return e; }
    void close() { drv_sock_close(this); }
    error_code cancel(error_code & e) { drv_sock_cancel(this); e = error_code(); return e; }
    error_code shutdown(shutdown_type, error_code & e) { drv_sock_shutdown(this); e = error_code(); return e; }
    void open(MProto) { drv_acc_setup(this); }
    template <class O> void set_option(const O &, error_code & e) { e = error_code(); }
    template <class O> void set_option(const O &) {}
    void bind(const endpoint_type &) { drv_acc_setup(this); }
    template <class B, class H> void async_read_some(const B & b, H h) {
        drv_start_read(boost::asio::buffer_cast<const void *>(b), boost::asio::buffer_size(b), this, &h, &Done<H>::done, &Done<H>::drop);
    }
    template <class B, class H> void async_receive(const B & b, H h) { async_read_some(b, h); }
    template <class B, class H> void async_write_some(const B & b, H h) {
        drv_start_write_some(boost::asio::buffer_cast<const void *>(b), boost::asio::buffer_size(b), this, &h, &Done<H>::done, &Done<H>::drop);
    }
    template <class B, class H> void async_send(const B & b, H h) { async_write_some(b, h); }
    template <class B, class H> void async_receive_from(const B & b, endpoint_type & from, H h) {
        drv_start_recvfrom(boost::asio::buffer_cast<const void *>(b), boost::asio::buffer_size(b), this, &from, &h, &Done<H>::done, &Done<H>::drop);
    }
    template <class B, class H> void async_send_to(const B & b, const endpoint_type & to, H h) {
        const endpoint_type t = to;
        drv_start_sendto(boost::asio::buffer_cast<const void *>(b), boost::asio::buffer_size(b), this, &t, &h, &Done<H>::done, &Done<H>::drop);
    }
};
struct MAcc {
    typedef MProto protocol_type;
    struct reuse_address { explicit reuse_address(bool) {} };
    std::uint64_t fd;
    explicit MAcc(boost::asio::io_service &) : fd(0) {}
    ~MAcc() { drv_acc_close(this); }
    void open(MProto) { drv_acc_setup(this); }
    template <class O> void set_option(const O &, error_code & e) { e = error_code(); }
    template <class O> void set_option(const O &) {}
    void bind(const MProto::endpoint &) { drv_acc_setup(this); }
    void listen() { drv_acc_setup(this); }
    error_code close(error_code & e) { drv_acc_close(this); e = error_code(); return e; }
    bool is_open() const { return drv_sock_is_open(this); }
    template <class H> void async_accept(MSock & s, H h) { drv_start_accept(&s, this, &h, &Done1<H>::done, &Done1<H>::drop); }
};
namespace boost { namespace asio {
    template <class B, class H> void async_write(MSock & s, const B & b, decltype(transfer_all()), H h) {
        drv_start_write(buffer_cast<const void *>(b), buffer_size(b), &s, &h, &Done<H>::done, &Done<H>::drop);
    }
    template <class B, class H> void async_write(MSock & s, const B & b, H h) {
        drv_start_write(buffer_cast<const void *>(b), buffer_size(b), &s, &h, &Done<H>::done, &Done<H>::drop);
    }
}}

#include <server/socket_stream.h>
#include <server/socket_datagram.h>
#include <server/memcached/conversation.h>

using namespace cachelot;
using namespace cachelot::net;
typedef memcached::StreamSocketConversation<MSock> Conv;
typedef memcached::StreamServer<MSock> Serv;
struct Udp : datagram_server<MSock> {
    explicit Udp(io_service & i) : datagram_server<MSock>(i) {}
    ConversationReply handle_data(io_buffer &, io_buffer &) noexcept override;
};
void drv_conv_start(Conv & c) { c.start(); }
void drv_conv_close(Conv & c) { c.close(); }
void drv_conv_ctor(void * m, cache::Cache & c, io_service & i, size_t r, size_t s) { new (m) Conv(c, i, r, s); }
ConversationReply drv_conv_handle(Conv & c, io_buffer & r, io_buffer & s) { return c.Conv::handle_data(r, s); }
void drv_serv_start(Serv & s, MProto::endpoint e) { s.start(e); }
void drv_udp_start(Udp & u, MProto::endpoint e) { u.start(e); }
ConversationReply drv_udp_handle(memcached::UdpServer & u, io_buffer & r, io_buffer & s) { return u.memcached::UdpServer::handle_data(r, s); }
const void * prb_conv_recv(Conv & c) { return &c.m_recv_buf; }
const void * prb_conv_send(Conv & c) { return &c.m_send_buf; }
const void * prb_conv_sock(Conv & c) { return &c.m_socket; }
const void * prb_udp_recv(Udp & c) { return &c.m_recv_buf; }
const void * prb_udp_send(Udp & c) { return &c.m_send_buf; }
const void * prb_udp_remote(Udp & c) { return &c.m_remote_endpoint; }
