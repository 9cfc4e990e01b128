// the stream buffer over a socket
#include <string>
#include "network/iostream.h"

namespace driver_sstream {
using namespace pfi::network;
using pfi::lang::shared_ptr;

std::streamsize sb_xsputn(socketstreambuf& b, const char* s, std::streamsize n) { return b.socketstreambuf::xsputn(s, n); }
int sb_overflow(socketstreambuf& b, int c) { return b.socketstreambuf::overflow(c); }
int sb_sync(socketstreambuf& b) { return b.socketstreambuf::sync(); }
int sb_uflow(socketstreambuf& b) { return b.socketstreambuf::uflow(); }
int sb_underflow(socketstreambuf& b) { return b.socketstreambuf::underflow(); }
bool sb_connected(const socketstreambuf& b) { return b.is_connected(); }
stream_socket* sb_socket(const socketstreambuf& b) { return b.socket(); }
void ss_connect(socketstream& s, const std::string& h, uint16_t p) { s.connect(h, p); }
void ss_setsock(socketstream& s, shared_ptr<stream_socket> k) { s.setsock(k); }
void ss_make(const std::string& h, uint16_t p) { socketstream s(h, p); }
void ss_make0() { socketstream s; }
}
