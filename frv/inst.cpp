// Instantiates the inline and template code of the headers so that it is compiled to IR; contains no logic of its own.
#include <frnetlib/Packet.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/SSLSocket.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/WebSocket.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
template class fr::WebSocket<fr::TcpSocket>;
enum InstE8 : uint8_t { ie8 }; enum class InstE32 : uint32_t { ie32 }; enum InstI32 : int32_t { ii32 };
template<class T> void inst_rw(fr::Packet &p, T &v) { p << (const T &)v; p >> v; }
template<class T> void inst_r(fr::Packet &p, T v) { p << v; T w; p >> w; }
void inst(fr::Packet &p) {
    inst_r<bool>(p, 0); inst_r<uint8_t>(p, 0); inst_r<uint16_t>(p, 0); inst_r<uint32_t>(p, 0); inst_r<uint64_t>(p, 0); inst_r<int16_t>(p, 0); inst_r<int32_t>(p, 0); inst_r<int64_t>(p, 0);
    inst_r<float>(p, 0); inst_r<double>(p, 0); inst_r<InstE8>(p, ie8); inst_r<InstE32>(p, InstE32::ie32); inst_r<InstI32>(p, ii32);
    { std::string v; inst_rw(p, v); } p << "x"; 
    { std::vector<uint8_t> v; inst_rw(p, v); } { std::vector<uint32_t> v; inst_rw(p, v); } { std::vector<uint64_t> v; inst_rw(p, v); } { std::vector<std::string> v; inst_rw(p, v); }
    { std::pair<uint8_t, std::string> v; inst_rw(p, v); } { std::pair<std::string, uint32_t> v; inst_rw(p, v); }
    { std::map<std::string, std::string> v; inst_rw(p, v); } { std::unordered_map<std::string, std::string> v; inst_rw(p, v); }
    std::vector<uint32_t> r; p.add_range(r.begin(), r.end());
    p.add_raw("", 0); p.extract_raw(nullptr, 0); p.seek_cursor(3); p.set_cursor(1); p.clear(); p.set_buffer(std::string()); p.reserve(1); p.get_cursor(); p.get_bytes_remaining(); p.size();
    fr::Packet q; fr::Packet q2{1u, 2u};
}
#include <frnetlib/WebFrame.h>
void inst_frames() { fr::ClientWebFrame c; fr::ServerWebFrame s; c.set_payload(""); c.get_payload(); c.set_opcode(fr::WebFrame::Opcode::Text); c.get_opcode(); c.set_final(true); c.is_final(); }
void inst_socket(fr::Socket &s) { s.set_max_receive_size(1); s.get_max_receive_size(); }
void inst_tcp(fr::Socket &s) { s.set_receive_timeout(1); s.get_receive_timeout(); s.set_send_timeout(1); s.get_send_timeout(); fr::TcpListener a; fr::TcpListener b(std::move(a)); fr::TcpSocket t; t.connected(); }
