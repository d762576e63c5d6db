// Conformance harness: lets the driver call the library and the program.
//
// It uses the public interface only.  Requests come one per line on stdin, fields separated by tabs
// (\t, \n and \\ are escaped within fields); each is answered by one line of JSON.
//
//   P <parser> <ref> <text>       execute one parser (shared object)
//   Q <parser> <ref> <text>       execute one parser (fresh object)
//   F <ref> <text>                all parsers of the program, then refiner by refiner, then the program
//   M <arg>...                    run the program with these arguments
//   R <refiner> <text> <results>  run one refiner on given results
//   D <result>                    print a result
//   A <op>;<op>;...               a history of calls on components c0..c2, looked at after each call
//   H <op>;<op>;...               a history of calls on results r0..r2, looked at after each call
//   a, h                          likewise, looked at in the end only
//   C <threads> <times> <req>...  these requests (fields separated by \x1f), each <times> times, dealt out to threads that
//                                 run at once, on objects of their own; reports when each began and ended, and its answer
//
// A result is written as integers: index length tags ranged  8 x (certain value)  8 x (certain value),
// with the components in the order of COMPS and the tags as a bit mask in the order of TAGS.
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <numeric>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "boost/date_time/gregorian/gregorian.hpp"
#include "boost/date_time/posix_time/posix_time.hpp"

// the program may end by leaving main, or by leaving it all
struct ProgramExit { int status; };
[[noreturn]] inline void program_exit(int status) { throw ProgramExit{status}; }
namespace std { using ::program_exit; }

#define main chrono_main
#define exit program_exit
#include "time.cpp"
#undef main
#undef exit
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"

namespace conformance {

using parse::ParsedComponents;
using parse::ParsedResult;

static const utils::Modifiers TAGS[] = {
    utils::ENCasualTimeParser, utils::ENCasualDateParser, utils::ENDeadlineFormatParser,
    utils::ENDayOfTheWeekParser, utils::ENMonthNameMiddleEndianParser, utils::ENTimeLaterParser,
    utils::ENMonthNameParser, utils::ENTimeAgoFormatParser, utils::ENISOFormatParser,
    utils::ENTimeExpressionParser, utils::ENUSHolidaysParser, utils::ENRelativeDateFormatParser,
    utils::ENMergeDateRangeRefiner, utils::ENMergeDateAndTimeRefiner, utils::ExtractTimeZoneAbbreviation};
static const int NTAGS = sizeof TAGS / sizeof *TAGS;

static const char* COMPS[] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};
static const int NCOMPS = 8;

static int get(ParsedComponents& p, int c) {
    switch (c) {
        case 0: return p.getYear();
        case 1: return p.getMonth();
        case 2: return p.get_mDay();
        case 3: return p.get_wDay();
        case 4: return p.getHour();
        case 5: return p.getMinute();
        case 6: return p.getSeconds();
        default: return p.getTimeZoneOffset();
    }
}

static void put(ParsedComponents& p, int c, int v) {
    switch (c) {
        case 0: p.setYear(v); break;
        case 1: p.setMonth(v); break;
        case 2: p.set_mDay(v); break;
        case 3: p.set_wDay(v); break;
        case 4: p.setHour(v); break;
        case 5: p.setMinute(v); break;
        case 6: p.setSeconds(v); break;
        default: p.setTimeZoneOffset(v); break;
    }
}

static std::vector<std::string> split(const std::string& s, char sep) {
    std::vector<std::string> out;
    std::string cur;
    for (char c : s) {
        if (c == sep) { out.push_back(cur); cur.clear(); }
        else cur += c;
    }
    out.push_back(cur);
    return out;
}

static std::string unescape(const std::string& s) {
    std::string out;
    for (size_t k = 0; k < s.size(); k++) {
        if (s[k] == '\\' && k + 1 < s.size()) {
            k++;
            out += s[k] == 't' ? '\t' : s[k] == 'n' ? '\n' : s[k] == 'r' ? '\r' : s[k];
        }
        else out += s[k];
    }
    return out;
}

static std::string quote(const std::string& s) {
    std::string out = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { out += '\\'; out += c; }
        else if (c < 32 || c > 126) { snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
        else out += c;
    }
    return out + "\"";
}

static std::string dump(ParsedComponents& p) {
    std::string out = "[";
    for (int c = 0; c < NCOMPS; c++)
        out += std::string(c ? "," : "") + "[" + (p.isCertain(COMPS[c]) ? "1" : "0") + "," +
               std::to_string(get(p, c)) + "]";
    return out + "]";
}

static std::string dump(ParsedResult& r) {
    long mask = 0;
    for (int k = 0; k < NTAGS; k++)
        if (r.getTag(TAGS[k])) mask |= 1L << k;
    ParsedComponents blank;
    return "[" + std::to_string(r.getIndex()) + "," + std::to_string(r.textLength()) + "," +
           std::to_string(mask) + "," + (r.end() ? "1" : "0") + "," + dump(r.startDate) + "," +
           dump(r.end() ? r.endDate : blank) + "]";
}

static std::string dump(Result& rs) {
    std::string out = "[";
    for (size_t k = 0; k < rs.size(); k++) out += (k ? "," : "") + dump(rs[k]);
    return out + "]";
}

static void readParts(std::istringstream& in, ParsedComponents& p) {
    for (int c = 0; c < NCOMPS; c++) {
        int certain, v;
        in >> certain >> v;
        if (certain) put(p, c, v);
        else if (v != 0) p.implyComponent(COMPS[c], v);
    }
}

static ParsedResult readResult(const std::string& s, const std::string* text) {
    std::istringstream in(s);
    long at, len, mask, ranged;
    in >> at >> len >> mask >> ranged;
    std::string words(len, 'x');
    if (text && size_t(at + len) <= text->size()) words = text->substr(at, len);
    ParsedResult r(posix_time::ptime(), at, words);
    for (int k = 0; k < NTAGS; k++)
        if (mask >> k & 1) r.setTag(TAGS[k]);
    readParts(in, r.startDate);
    if (ranged) {
        readParts(in, r.endDate);
        r.makeEndDateValid();
    }
    return r;
}

static Result readResults(const std::string& s, const std::string& text) {
    Result rs;
    if (s.empty()) return rs;
    for (auto& part : split(s, ';')) rs.push_back(readResult(part, &text));
    return rs;
}

typedef std::shared_ptr<parser::Parser> ParserP;
typedef std::shared_ptr<refiners::Refiner> RefinerP;

static ParserP makeParser(const std::string& n) {
    if (n == "ctp") return std::make_shared<parser::ENCasualTimeParser>();
    if (n == "dfp") return std::make_shared<parser::ENDeadlineFormatParser>();
    if (n == "dow") return std::make_shared<parser::ENDayOfWeekParser>();
    if (n == "cdp") return std::make_shared<parser::ENCasualDateParser>();
    if (n == "mme") return std::make_shared<parser::ENMonthNameMiddleEndianParser>();
    if (n == "tlp") return std::make_shared<parser::ENTimeLaterParser>();
    if (n == "mnp") return std::make_shared<parser::ENMonthNameParser>();
    if (n == "tap") return std::make_shared<parser::ENTimeAgoFormatParser>();
    if (n == "txp") return std::make_shared<parser::ENTimeExpressionParser>();
    if (n == "iso") return std::make_shared<parser::ENISOFormatParser>();
    if (n == "hol") return std::make_shared<parser::ENHolidayParser>();
    if (n == "wxp") return std::make_shared<parser::ENWeekExpressionParser>();
    if (n == "rel") return std::make_shared<parser::ENRelativeDateFormatParser>();
    fprintf(stderr, "no parser %s\n", n.c_str());
    exit(3);
}

static RefinerP makeRefiner(const std::string& n) {
    if (n == "olr") return std::make_shared<OverlapRemover>();
    if (n == "tza") return std::make_shared<ExtractTimeZoneAbbreviation>();
    if (n == "mdt") return std::make_shared<ENMergeDateAndTime>();
    if (n == "mdr") return std::make_shared<ENMergeDateRange>();
    fprintf(stderr, "no refiner %s\n", n.c_str());
    exit(3);
}

static thread_local bool ownObjects = false;       // each call on objects of its own
static std::map<std::string, ParserP> sharedParsers;
static std::map<std::string, RefinerP> sharedRefiners;
static ParserP sharedParser(const std::string& n) {
    if (ownObjects) return makeParser(n);
    auto& p = sharedParsers[n];
    if (!p) p = makeParser(n);
    return p;
}
static RefinerP sharedRefiner(const std::string& n) {
    if (ownObjects) return makeRefiner(n);
    auto& p = sharedRefiners[n];
    if (!p) p = makeRefiner(n);
    return p;
}

static const char* PROGRAM[] = {"ctp", "dfp", "dow", "cdp", "mme", "tlp", "mnp", "tap", "txp", "iso", "hol", "wxp"};
static const char* REFINE[] = {"olr", "tza", "mdt", "mdr"};

static std::string runProgram(const std::vector<std::string>& args) {
    std::vector<std::string> copy(args);
    copy.insert(copy.begin(), "chrono");
    std::vector<char*> argv;
    for (auto& a : copy) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    // whatever way it writes, it is what comes out
    static const int file = memfd_create("output", 0);
    if (file < 0 || ftruncate(file, 0) < 0 || lseek(file, 0, SEEK_SET) != 0) exit(4);
    std::cout.flush();
    fflush(stdout);
    const int old = dup(1);
    dup2(file, 1);
    auto back = [&] {
        std::cout.flush();
        fflush(stdout);
        std::cout.clear();
        dup2(old, 1);
        close(old);
    };
    try {
        chrono_main(int(copy.size()), argv.data());
    } catch (ProgramExit&) {
    } catch (...) {
        back();
        throw;
    }
    back();
    std::string out(lseek(file, 0, SEEK_END), ' ');
    if (pread(file, &out[0], out.size(), 0) != ssize_t(out.size())) exit(4);
    return out;
}

// an answer, or the error that came instead of one
static std::string attempt(const std::function<std::string()>& f) {
    try {
        return f();
    } catch (std::exception& e) {
        return "{\"error\":" + quote(e.what()) + "}";
    } catch (...) {
        return "{\"error\":\"unknown\"}";
    }
}

static std::string parseOne(ParserP p, const std::string& refText, std::string text) {
    posix_time::ptime ref = posix_time::time_from_string(refText);
    const posix_time::ptime before = ref;
    Result rs = p->execute(text, ref);
    return "{\"r\":" + dump(rs) + ",\"t\":" + quote(text) + ",\"u\":" + (ref == before ? "1" : "0") + "}";
}

static std::string pipeline(const std::string& refText, const std::string& doc) {
    posix_time::ptime ref = posix_time::time_from_string(refText);
    std::string text = doc, out = "{\"p\":{";
    Result results;
    for (const char* n : PROGRAM) {
        Result rs = sharedParser(n)->execute(text, ref);
        out += std::string(n == PROGRAM[0] ? "" : ",") + "\"" + n + "\":" + dump(rs);
        results.insert(results.end(), rs.begin(), rs.end());
    }
    out += "},\"t\":" + quote(text) + ",\"log\":[" + dump(results);
    std::stable_sort(results.begin(), results.end(),
                     [](const ParsedResult& a, const ParsedResult& b) { return a.getIndex() < b.getIndex(); });
    out += "," + dump(results);
    for (const char* n : REFINE) {
        results = sharedRefiner(n)->refine(results, text);
        out += "," + dump(results);
    }
    return out + "],\"a\":" + attempt([&] { return quote(runProgram({doc, refText})); }) + "}";
}

static std::string refineOne(const std::string& n, const std::string& text, const std::string& spec) {
    Result rs = readResults(spec, text);
    const std::string before = dump(rs);
    Result out = sharedRefiner(n)->refine(rs, text);
    return "{\"r\":" + dump(out) + ",\"u\":" + (dump(rs) == before ? "1" : "0") + "}";
}

static int compIndex(const std::string& n) {
    for (int c = 0; c < NCOMPS; c++)
        if (n == COMPS[c]) return c;
    exit(3);
}

static int tagIndex(const std::string& n) {
    int k = atoi(n.c_str());
    if (k < 0 || k >= NTAGS) exit(3);
    return k;
}

static std::string dateOf(ParsedComponents p) {
    return attempt([&] {
        posix_time::ptime t = p.date();
        return "[" + std::to_string((t.date() - gregorian::date(1400, 1, 1)).days()) + "," +
               std::to_string(t.time_of_day().total_seconds()) + "]";
    });
}

// the observable state of components
static std::string observe(ParsedComponents& p) {
    bool possible = p.isPossibleDate();
    return "[" + dump(p) + "," + (possible ? "1," + dateOf(p) : "0,[]") + "]";
}

// set|imply <comp> <value>
static void change(ParsedComponents& p, const std::vector<std::string>& w, size_t k) {
    if (w[k] == "set") put(p, compIndex(w[k + 1]), atoi(w[k + 2].c_str()));
    else p.implyComponent(w[k + 1], atoi(w[k + 2].c_str()));
}

// after each call, the observable state of every object is reported
static std::string componentHistory(const std::string& spec, bool all) {
    const int N = 3;
    std::vector<ParsedComponents> c(N);
    std::string out = "[";
    auto report = [&] {
        out += std::string(out.size() > 1 ? "," : "") + "[";
        for (int k = 0; k < N; k++) out += (k ? "," : "") + observe(c[k]);
        out += "]";
    };
    if (all) report();
    for (auto& op : split(spec, ';')) {
        if (op.empty()) continue;
        auto w = split(op, ' ');
        int k = atoi(w[1].c_str());
        if (w[0] == "assign") c[k] = c[atoi(w[2].c_str())];
        else if (w[0] == "copy") { ParsedComponents tmp(c[atoi(w[2].c_str())]); c[k] = tmp; }
        else if (w[0] == "reset") c[k] = ParsedComponents();
        else if (w[0] == "from" || w[0] == "anchored") {      // the components of a mask are known
            int v = atoi(w[3].c_str());
            Components known, anchor;
            for (int j = 0; j < NCOMPS; j++) {
                bool in = (atoi(w[2].c_str()) >> j) & 1;
                if (in || v % 2 == 0) known.insert({COMPS[j], {in, in ? v + j : 0}});   // (the others are there and unknown, or not there)
                anchor.insert({COMPS[j], {j % 2 == 1, v + j}});
            }
            if (w[0] == "from") c[k] = ParsedComponents(known);
            else c[k] = ParsedComponents(known, anchor);
        }
        else if (w[0] == "unknown") {
            c[k].implyComponent("week", 5);
            c[k].implyComponent("", 6);
            if (c[k].isCertain("week") || c[k].isCertain("Year") || c[k].isCertain("")) return "{\"error\":\"what is no component is certain\"}";
        }
        else { std::vector<std::string> v{w[0], w[2], w[3]}; change(c[k], v, 0); }
        if (all) report();
    }
    if (!all) report();
    return out + "]";
}

static std::string observe(ParsedResult& r) {
    return "[" + dump(r) + "," + (r.hasPossibleDates() ? "1" : "0") + "," + (r.isEmpty() ? "1" : "0") + "]";
}

static std::string resultHistory(const std::string& spec, bool all) {
    const int N = 3;
    Result r(N);
    std::string out = "[";
    auto report = [&] {
        out += std::string(out.size() > 1 ? "," : "") + "[";
        for (int k = 0; k < N; k++) out += (k ? "," : "") + observe(r[k]);
        out += "]";
    };
    if (all) report();
    for (auto& op : split(spec, ';')) {
        if (op.empty()) continue;
        auto w = split(op, ' ');
        int k = atoi(w[1].c_str());
        if (w[0] == "assign") r[k] = r[atoi(w[2].c_str())];
        else if (w[0] == "copy") { ParsedResult tmp(r[atoi(w[2].c_str())]); r[k] = tmp; }
        else if (w[0] == "list") { Result v; v.push_back(r[atoi(w[2].c_str())]); Result u(v); r[k] = u[0]; }
        else if (w[0] == "new") r[k] = ParsedResult(posix_time::ptime(), atoi(w[2].c_str()), std::string(atoi(w[3].c_str()), 'x'));
        else if (w[0] == "reset") r[k] = ParsedResult();
        else if (w[0] == "index") r[k].setIndex(atoi(w[2].c_str()));
        else if (w[0] == "text") r[k].setText(std::string(atoi(w[2].c_str()), 'y'));
        else if (w[0] == "tag") r[k].setTag(TAGS[tagIndex(w[2])]);
        else if (w[0] == "end") r[k].makeEndDateValid();
        else {
            std::vector<std::string> v{w[0], w[3], w[4]};
            change(w[2] == "start" ? r[k].startDate : r[k].endDate, v, 0);
        }
        if (all) report();
    }
    if (!all) report();
    return out + "]";
}

static std::string concurrently(const std::vector<std::string>& f);

static std::string answer(const std::vector<std::string>& f) {
    if (f[0] == "C") return concurrently(f);
    if (f[0] == "P") return parseOne(sharedParser(f[1]), f[2], f[3]);
    if (f[0] == "Q") return parseOne(makeParser(f[1]), f[2], f[3]);
    if (f[0] == "F") return pipeline(f[1], f[2]);
    if (f[0] == "M") return quote(runProgram(std::vector<std::string>(f.begin() + 1, f.end())));
    if (f[0] == "R") return refineOne(f[1], f[2], f[3]);
    if (f[0] == "D") { ParsedResult r = readResult(f[1], nullptr); return quote(r.toDate()); }
    if (f[0] == "A" || f[0] == "a") return componentHistory(f[1], f[0] == "A");
    if (f[0] == "H" || f[0] == "h") return resultHistory(f[1], f[0] == "H");
    fprintf(stderr, "no request %s\n", f[0].c_str());
    exit(3);
}

// a build with ThreadSanitizer calls this when it sees two threads use an object that one of them changes
static std::atomic<int> shared(0);
static std::string concurrently(const std::vector<std::string>& f) {
    const int threads = atoi(f[1].c_str()), times = atoi(f[2].c_str()), calls = int(f.size()) - 3;
    std::vector<std::vector<std::string>> reqs;
    for (int c = 0; c < calls; c++) reqs.push_back(split(f[c + 3], '\x1f'));
    std::atomic<int> clock(0), ready(0);
    typedef std::pair<int, std::string> Event;
    std::vector<std::vector<Event>> seen(threads);
    auto work = [&](int t) {
        ownObjects = true;
        ready++;
        while (ready < threads) std::this_thread::yield();
        for (int n = 0; n < times; n++)
            for (int c = t; c < calls; c += threads) {
                std::string head = "\"t\":" + std::to_string(t + 1) + ",\"c\":" + std::to_string(c);
                seen[t].emplace_back(clock++, "{\"event\":\"begin\"," + head + "}");
                std::string out = attempt([&] { return answer(reqs[c]); });
                if (shared.exchange(0)) seen[t].emplace_back(clock++, "{\"event\":\"change\"," + head + ",\"object\":0}");
                seen[t].emplace_back(clock++, "{\"event\":\"end\"," + head + ",\"a\":" + out + "}");
            }
    };
    std::vector<std::thread> pool;
    for (int t = 0; t < threads; t++) pool.emplace_back(work, t);
    for (auto& t : pool) t.join();
    if (shared.exchange(0)) seen[0].emplace_back(clock++, "{\"event\":\"change\",\"t\":1,\"c\":0,\"object\":0}");
    std::map<int, std::string> order;
    for (auto& s : seen) order.insert(s.begin(), s.end());
    std::string out = "[";
    for (auto& e : order) out += (out.size() > 1 ? "," : "") + e.second;
    return out + "]";
}

static void limit(int seconds, int wall) {
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
    alarm(wall);                               // nor waiting for something
}

static FILE* say;                               // what the code itself prints goes elsewhere

// what a process says that was asked nothing before: the parent never answers anything itself
static bool inChild() {
    pid_t child = fork();
    if (child < 0) exit(4);
    if (child == 0) return true;
    int status = 0;
    waitpid(child, &status, 0);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 3) exit(3);
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGVTALRM || WTERMSIG(status) == SIGALRM))
            fputs("{\"error\":\"no answer in time\"}\n", say);
        else fputs("{\"error\":\"the process died\"}\n", say);
        fflush(say);
    }
    return false;
}

int talk(bool fresh) {
    say = fdopen(dup(1), "w");
    if (!say || !freopen("/dev/null", "w", stdout)) exit(4);
    std::cerr.setstate(std::ios::failbit);     // the library's own messages are not looked at
    std::string line;
    while (std::getline(std::cin, line)) {
        if (fresh && !inChild()) continue;
        auto f = split(line, '\t');
        for (auto& x : f) x = unescape(x);
        f[0] == "C" ? limit(100, 100) : limit(10, 120);          // no answer within 10 s of work: the process ends
        std::string out = attempt([&] { return answer(f); });
        limit(0, 0);
        fprintf(say, "%s\n", out.c_str());
        fflush(say);
        if (fresh) _exit(0);
    }
    return 0;
}

}  // namespace conformance

extern "C" void __tsan_on_report(void*) { conformance::shared++; }

int main(int argc, char**) {
    // libstdc++ remembers these answers, for all threads, when first asked
    for (int c = 0; c < 256; c++) std::use_facet<std::ctype<char>>(std::locale()).narrow(char(c), 0);
    std::use_facet<std::ctype<char>>(std::locale()).widen('x');
    return conformance::talk(argc > 1);        // with an argument: a process per request
}
