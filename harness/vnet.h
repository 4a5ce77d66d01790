// A TCP network inside of the process, for programs that run under the scheduler (csched): the socket calls of the code
// under test end up here.  What a recv() returns (how the bytes are cut), and when and how connections break, is decided
// by the program under test's job and the schedule's generator.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
namespace vnet {
struct Conn;
struct Options {
  int cut = 1;                    // how recv() cuts what is available: 0 everything; 1 random; 2 one byte at a time; 3 mostly whole
  size_t window = 1 << 20;        // a send() blocks while this much is unread by the other side
  // Called once per connection that is established: how many bytes may pass from the connecting side to the accepting side,
  // and from the accepting side to the connecting side, until the connection breaks (-1: never); whether it breaks with a reset.
  std::function<void(int port, int nth, int64_t& up, int64_t& down, bool& reset)> plan;
  std::function<bool(int port)> refuse;  // connecting to the port fails
};
void Start(const Options&);       // forgets all previous connections; call at the beginning of a run
Options& Opt();
int Connections(int port);        // how many were established to this port
void BreakAll(int port, bool reset);  // break every established connection to the port
int Open();                       // how many sockets are not closed
// Raw access for drivers: a client which speaks bytes.
int Connect(int port);            // -1: refused
bool Send(int fd, const std::string&);
std::string RecvAll(int fd);      // until end of stream or error
std::string RecvSome(int fd);     // some bytes, "" at end of stream
void HalfClose(int fd);
void Close(int fd, bool reset = false);
}
