// One request/response exchange with the request processing of the library over a socket pair: the
// caller's thread plays the server (m38_generate_response, then m38_send_response until done, as the
// server's worker and responder threads do), a persistent second thread plays the client.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <map>
#include "../engine/engine.hpp"
#include "shim.h"

struct Plan {
	std::vector<std::string> segs;   // written one by one
	bool wait_consumed = false;      // wait until the server has read a segment before writing the next
	enum End { READ_ALL,             // keep the connection open, read until end of stream
		HALF_CLOSE,                  // end of stream towards the server, then read all
		CLOSE_AFTER_SEND,            // gone before the response
		CLOSE_AFTER_READING,         // reads `read_limit` bytes, then gone
		RESET                        // gone with unread data, so that the server's reads fail
	} end = READ_ALL;
	size_t read_limit = 0;
	double pause = 0;                // seconds before each segment but the first, and before reading
	bool small_buffers = false;      // small socket buffers
	std::vector<unsigned> send_sizes; // see send_script
	std::vector<unsigned> recv_sizes; // see recv_script
	int no_stdin = 0;                // descriptor 0 is free: 1 before, 2 once the connection is there
};
struct Reply {
	bool reset = false; // the connection ended with an error: the server closed it with bytes unread
	std::string bytes;       // everything the client received
	bool eof = false;        // the client saw end of stream
	bool generated = false;  // m38_generate_response returned a response
	bool stalled = false;    // the server waited for more although the whole request had been delivered
	bool fd_left_open = false; // the server's end is still open after everything is done
	unsigned short_sends = 0;
	unsigned send_calls = 0;
	unsigned interrupted = 0;
};
// Descriptor 0 is closed, as in a daemon, while one of these exists.
struct NoStdin { int saved; NoStdin(); ~NoStdin(); NoStdin(const NoStdin &) = delete; };
Reply exchange(void *app, const Plan &plan);

// A parsed HTTP response.
struct Response {
	int code = 0; std::string status_line; std::vector<std::string> lines; std::string body;
	// the value of a header that must occur exactly once
	std::string one(const std::string &name) const;
	int count(const std::string &name) const;
};
// Fails the case if the bytes are not a well-formed response whose Content-Length equals its body size.
Response parse_response(const std::string &bytes, const char *what);

// Handlers of the slots, for cb_handler / cb_cleanup.
struct SlotHandler {
	std::function<int(const sh_view &, const void *req, void *resp)> handle;
	std::function<void(int code, void *resp)> cleanup;
};
extern SlotHandler slots[SH_SLOTS];
struct Call { bool cleanup; int slot; int code; };
extern std::vector<Call> calls;   // in order
void reset_slots();
int count_fds();
int count_maps(const std::string &path_part);
