// C31: the next data line of a text file
#include <cassert>
#include <sstream>
#include <string>
#include "ieompp/io/line.hpp"

#include "vc.hpp"

using namespace ieompp;

struct Line {
    std::string s;
};
#ifndef VC_SYMBOLIC
static std::string draw_line(const std::string& n)
{
    static const char alphabet[] = {' ', '#', 'a', '\t', '\r', '1', '\v', '\f', ';', '/', '\b', '\x0e', '!', '\xa0', '\\', '%'};
    const uint64_t len = vc_u64((n + ".len").c_str()) % 7;
    std::string s;
    for(uint64_t i = 0; i < len; ++i) s += alphabet[vc_u64((n + ".c[" + std::to_string(i) + "]").c_str()) % 16];
    if(vc_u64((n + ".long").c_str()) == 3) s += std::string(300000, len % 2 ? ' ' : 'x');
    return s;
}
#endif
VC_REFLECT_GEN(Line, Line{draw_line(n)})

static bool blank(char c) { return c == ' ' || ('\t' <= c && c <= '\r'); }
// only white space, or the first other character is a '#'
static bool skippable(const std::string& s)
{
    return vc_forall(s.size(), [&](uint64_t i) { return blank(s[i]); })
           || vc_exists(s.size(), [&](uint64_t i) { return s[i] == '#' && vc_forall(i, [&](uint64_t j) { return blank(s[j]); }); });
}

VC_PROP(skippable)
{
    const Line l = vc_any<Line>("line");
    vc_assert(io::is_skippable_line(l.s) == skippable(l.s), "blank lines and comments are skipped, other lines are not");
}
VC_PROP(next)
{
    const auto lines = vc_seq<Line>("lines");
    const uint64_t k = vc_u64("k");
    const auto skip = [&](uint64_t i) { return io::is_skippable_line(lines[i].s); };
    // the first data line
    vc_assume(k < lines.size() && vc_forall(k, skip) && !skip(k));
    std::istringstream strm;
    vc_lines(strm, lines.size(), [&](uint64_t i) { return lines[i].s; });
    const std::string line = io::next_line(strm);
    vc_assert(line == lines[k].s, "the next data line");
    std::string rest;
    const bool more = bool(std::getline(strm, rest));
    vc_assert(more == (k + 1 < lines.size()), "reading goes on after that line");
    vc_assert(!more || rest == lines[k + 1].s, "no line is lost");
}
VC_PROP(next_two)
{
    const auto lines = vc_seq<Line>("lines");
    const uint64_t k = vc_u64("k"), k2 = vc_u64("k2");
    const auto skip = [&](uint64_t i) { return io::is_skippable_line(lines[i].s); };
    vc_assume(k < k2 && k2 < lines.size() && !skip(k) && !skip(k2));
    vc_assume(vc_forall(lines.size(), [&](uint64_t i) { return !(i < k2 && i != k) || skip(i); }));
    std::istringstream strm;
    vc_lines(strm, lines.size(), [&](uint64_t i) { return lines[i].s; });
    const std::string a = io::next_line(strm), b = io::next_line(strm);
    vc_assert(a == lines[k].s && b == lines[k2].s, "the data lines in their order");
}
VC_PROP(end)
{
    const auto lines = vc_seq<Line>("lines");
    vc_assume(vc_forall(lines.size(), [&](uint64_t i) { return io::is_skippable_line(lines[i].s); }));
    std::istringstream strm;
    vc_lines(strm, lines.size(), [&](uint64_t i) { return lines[i].s; });
    vc_assert(io::next_line(strm).empty(), "nothing is returned at the end");
    vc_assert(!strm, "the end is reported by the stream");
    vc_assert(io::next_line(strm).empty() && !strm, "the end remains");
}
