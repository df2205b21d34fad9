// A reference renderer for GRESHUNKEL templates: works on the template text, without regular expressions.
#pragma once
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

struct MCtx;
struct MVal {
	enum K { STR, INT, ARR, SUB } k = STR;
	std::string s; int i = 0;
	std::vector<MVal> items;
	std::shared_ptr<MCtx> sub;
	std::string text() const;
};
struct MCtx {
	std::vector<std::pair<std::string, MVal>> vals;
	std::vector<std::pair<std::string, int>> filters;
	const MCtx *parent = nullptr;
	bool late = false;  // array items and members are added after everything else
	const MVal *find(const std::string &n) const;
	int filter(const std::string &n) const;
};
struct FilterCall { int filter; bool has_arg; std::string arg; bool operator<(const FilterCall &o) const { return std::tie(filter, has_arg, arg) < std::tie(o.filter, o.has_arg, o.arg); } bool operator==(const FilterCall &o) const { return filter == o.filter && has_arg == o.has_arg && arg == o.arg; } };

constexpr int FILTERS = 6;
std::string filter_result(int k, const char *arg);

struct Model {
	std::map<std::string, std::string> files;     // for includes
	std::map<std::string, bool> dotted;           // does UNLESS @sub.member render?
	std::set<std::string> dotted_seen;
	std::vector<FilterCall> log;
	size_t steps = 0, renders = 0;  // std::length_error beyond a limit
	std::string render(const MCtx &c, const std::string &t);
private:
	std::string line(const MCtx &c, std::string l);
	bool unless(const MCtx &c, const std::string &n);
};
