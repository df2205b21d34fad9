#pragma once
#include <vector>
#include <string>
#include <cstddef>
#include <mqueue.h>
#include <sys/socket.h>
// send() transfers at most send_script[i] bytes at its i-th call (cyclically; 0: no limit; 0u - n: all but n bytes, for small n).
const unsigned LEAVE = 0xfffffff0u;
const unsigned INTR = 0xffffffe0u; // the call is interrupted by a signal
// Likewise for recv().
extern std::vector<unsigned> *recv_script;
extern size_t recv_pos;
extern unsigned long interrupted;
extern thread_local bool unscripted; // this thread is not subject to them
extern std::vector<unsigned> *send_script;
extern size_t send_pos;
extern unsigned long sends, short_sends;
// The next accept_faults calls of accept() fail with accept_fault_errno.
extern int accept_fault_errno;
extern volatile int accept_faults;
// Appended to the names of message queues, so that several servers can run side by side.
extern std::string mq_suffix;
// What the clock shows in this thread, if not negative (only in builds that wrap the clock).
extern thread_local long fake_time;
extern "C" {
extern char (*mq_names)[64];  // names of the queues that were created (16 slots, in shared memory)
void mq_unlink_names();
extern int accept_fault_every; // every n-th accept() fails with accept_fault_errno
extern int accept_sndbuf;      // send buffer of accepted connections (0: as the system has it)
extern int backlog;            // replaces the backlog given to listen()
}
