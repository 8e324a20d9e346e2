// P33: command line, configuration files, file names, stopwatch.
#include "sched.h"
#include "containers.h"
#include <cctype>
#include <climits>
#include <ctime>
#ifndef SYM_NATIVE
template class std::basic_string<char>;
extern "C" {
long strtol(const char* s, char** e, int) noexcept { bool n = *s == '-'; if (n) s++; long v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (e) *e = (char*)s; return n ? -v : v; }
long long strtoll(const char* s, char** e, int b) noexcept { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) noexcept { return (unsigned long)strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) noexcept { return (unsigned long long)strtol(s, e, b); }
static long digits(long v, long most) { long st = 1; while (v / st >= most || v / st <= -most) st *= 2; return v / st * st; }   // numbers are exact here: leave out what does not fit
double strtod(const char* s, char** e) noexcept { return (double)digits(strtol(s, e, 10), 1l << 53); }
float strtof(const char* s, char** e) noexcept { return (float)digits(strtol(s, e, 10), 1l << 24); }
long double strtold(const char* s, char** e) noexcept { return (long double)strtol(s, e, 10); }
}
extern "C" int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
#endif
inline std::string nm(const char* p, int i) { return std::string(p) + std::to_string(i); }
static double clockNow;                    // nanoseconds
static std::string fileText;               // the only file there is
static bool fileThere = true;
static int stamp;                          // what the calendar says
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
namespace std {
    namespace chrono {
        using sym_ns = duration<double, nano>;
        struct sym_clock {
            using duration = sym_ns; using rep = double; using period = nano; using time_point = chrono::time_point<sym_clock, sym_ns>;
            static constexpr bool is_steady = true;
            static time_point now() { return time_point(sym_ns(clockNow)); }
        };
    }
    struct sym_file {                      // reads lines of fileText
        size_t at = 0; bool open = false, good_ = true;
        sym_file() = default;
        template <typename... A> explicit sym_file(std::string const& n, A...) { this->open_(n); }
        template <typename... A> explicit sym_file(const char* n, A...) { this->open_(n); }
        void open_(std::string const& n) { open = good_ = fileThere && n == "the.file"; }
        bool is_open() const { return open; }
        bool good() const { return open && good_; }
        bool fail() const { return !good(); }
        bool eof() const { return at >= fileText.size(); }
        void close() { open = false; }
        explicit operator bool() const { return good(); }
        bool operator!() const { return !good(); }
    };
    inline sym_file& getline(sym_file& f, std::string& s, char end = '\n') {
        if (!f.open || f.at >= fileText.size()) { f.good_ = false; s.clear(); return f; }
        s.clear();
        while (f.at < fileText.size() && fileText[f.at] != end) s.push_back(fileText[f.at++]);
        f.at++;
        return f;
    }
    struct sym_ss {                        // words separated by blanks
        std::string t; size_t at = 0; bool good_ = true;
        sym_ss() = default;
        template <typename... A> explicit sym_ss(std::string const& s, A...) : t(s) {}
        std::string str() const { return t; }
        void str(std::string const& s) { t = s; at = 0; good_ = true; }
        void clear() { good_ = true; }
        explicit operator bool() const { return good_; }
        bool operator!() const { return !good_; }
        bool fail() const { return !good_; }
        sym_ss& operator<<(std::string const& s) { t += s; return *this; }
        sym_ss& operator<<(const char* s) { t += s; return *this; }
        sym_ss& operator<<(char c) { t += c; return *this; }
        sym_ss& operator<<(int i) { t += std::to_string(i); return *this; }
        void skip() { while (at < t.size() && blank(t[at])) at++; }
        sym_ss& operator>>(std::string& s) {
            skip();
            if (at >= t.size()) { good_ = false; return *this; }
            s.clear();
            while (at < t.size() && !blank(t[at])) s.push_back(t[at++]);
            return *this;
        }
        sym_ss& operator>>(char& c) { skip(); if (at < t.size()) c = t[at++]; else good_ = false; return *this; }
        template <typename T> sym_ss& number(T& v) {           // whole decimal numbers
            skip();
            bool neg = false; size_t a = at;
            if (at < t.size() && t[at] == '-') neg = true, at++;
            long x = 0; size_t d = at;
            while (at < t.size() && t[at] >= '0' && t[at] <= '9') x = x * 10 + (t[at++] - '0');
            if (at == d) { good_ = false; at = a; v = 0; } else v = (T)(neg ? -x : x);
            return *this;
        }
        sym_ss& operator>>(int& v) { return number(v); }
        sym_ss& operator>>(long& v) { return number(v); }
        sym_ss& operator>>(unsigned& v) { return number(v); }
        sym_ss& operator>>(unsigned long& v) { return number(v); }
        sym_ss& operator>>(float& v) { return number(v); }
        sym_ss& operator>>(double& v) { return number(v); }
        sym_ss& operator>>(long double& v) { return number(v); }
    };
    template <typename T> auto operator>>(sym_ss&& s, T&& v) -> decltype(s >> v) { return s >> v; }
    struct sym_stamp {};
    inline sym_stamp sym_put_time(const tm*, const char*) { return {}; }
    inline sym_ss& operator<<(sym_ss& o, sym_stamp) { o.t += std::to_string(stamp); return o; }
    inline tm* sym_localtime(const time_t*) { static tm t; return &t; }
    inline time_t sym_time(time_t*) { return 0; }
}
#define steady_clock sym_clock
#define high_resolution_clock sym_clock
#define nanoseconds sym_ns
#undef fstream
#undef ifstream
#undef stringstream
#undef istringstream
#undef ostringstream
#define fstream sym_file
#define ifstream sym_file
#define stringstream sym_ss
#define istringstream sym_ss
#define ostringstream sym_ss
#undef istream
#define istream sym_ss
#define put_time sym_put_time
#define localtime sym_localtime
#include "/repo/src/dev-tools.hpp"
#include "/repo/src/tools/timer.hpp"
#include "/repo/src/tools/config-reader.hpp"
#define time sym_time
#include "/repo/src/tools/auto-name.hpp"
#undef time
using namespace hub;
// ---- stopwatch: any history of up to STEPS calls, any time passing in between
#ifndef STEPS
#define STEPS 5
#endif
extern "C" void stopwatch() {
    tools::Timer t;
    bool running = false;
    double sum = 0, t0 = 0;                                     // what a stopwatch shows, in nanoseconds
    clockNow = sym_pos("start", 1, 100);
    for (int k = 0; k < STEPS; k++) {
        clockNow += sym_pos(nm("dt", k).c_str(), 1, 3e9);
        switch (sym_choose("call", 4)) {
            case 0: if (running) { sym_assume(false); return; } t.start(); running = true; t0 = clockNow; break;
            case 1: t.pause(); if (running) sum += clockNow - t0; running = false; break;
            case 2: t.reset(); sum = 0; running = false; break;
            case 3: break;
        }
        clockNow += sym_pos(nm("du", k).c_str(), 1, 3e9);
        double d = (running ? sum + (clockNow - t0) : sum);
        sym_assert_eq(t.get_time() * 1e9, d, "stopwatch shows the time it was running");
    }
    sym_end();
}
// ---- file names
extern "C" void names_made() {
    int ns[] = {0, 7, -3, 1000000}; const char* tx[] = {"0", "7", "-3", "1000000"};
    int k = sym_choose("n", 4);
    std::string p(2, 'x');
    p[0] = (char)sym_int("p0", 33, 126); p[1] = (char)sym_int("p1", 33, 126);
    std::string a = tools::make_name(p, ns[k]), b = tools::make_name(p, ns[k], ".csv");
    sym_assert(a == p + tx[k] + ".dat", "name, number and extension");
    sym_assert(b == p + tx[k] + ".csv", "name, number and extension");
    sym_end();
}
// the automatic name: prefix and time, and no name is given twice, whatever the order of requests
extern "C" void names_auto() {
    std::vector<std::string> given;
    const char* ps[] = {"a_", "b_"};
    stamp = 10;
    for (int k = 0; k < 4; k++) {
        stamp += sym_choose("tick", 2);
        std::string p = ps[sym_choose("prefix", 2)], n = tools::auto_name(p), s = p + std::to_string(stamp);
        sym_assert(n.size() >= s.size() + 4 && n.compare(0, s.size(), s) == 0, "prefix and time");
        sym_assert(n.compare(n.size() - 4, 4, ".dat") == 0, "extension");
        for (auto const& g : given) sym_assert(g != n, "no name is given twice");
        given.push_back(n);
    }
    sym_end();
}
// ---- configuration files
static char dv = '=', cm = '#';                                   // divider and comment sign
static std::string line(int k, int n, const char* id) {           // blanks, dividers, comment signs and any other characters
    std::string s;
    for (int i = 0; i < n; i++) {
        std::string name = nm((std::string(id) + std::to_string(k) + "_").c_str(), i);
        switch (sym_choose(("kind_" + name).c_str(), 4)) {
            case 0: s.push_back(i % 2 ? '\t' : ' '); break;
            case 1: s.push_back(dv); break;
            case 2: s.push_back(cm); break;
            case 3: { long c = sym_int(name.c_str(), 33, 126); sym_assume(c != dv && c != cm); s.push_back((char)c); }
        }
    }
    return s;
}
struct Entry { std::string key, val; };
static bool parse(std::string const& l, char divider, char commenter, Entry& e) {   // false: blank line or comment
    std::string s;
    for (char c : l) if (!blank(c)) s.push_back(c);
    if (s.empty() || s[0] == commenter) return false;
    size_t i = 0;
    while (i < s.size() && s[i] != divider) i++;
    sym_assume(i < s.size());                                    // every other line assigns
    e.key = s.substr(0, i);
    e.val = s.substr(i + 1);
    return true;
}
static void config(int lines, int len, char divider, char commenter) {
    fileText.clear(); dv = divider; cm = commenter;
    std::vector<Entry> es;
    for (int k = 0; k < lines; k++) {
        int n = sym_choose(nm("length", k).c_str(), len + 1);
        std::string l = line(k, n, "c");
        Entry e;
        if (parse(l, divider, commenter, e)) {
            bool old = false;
            for (auto& o : es) if (o.key == e.key) o.val = e.val, old = true;   // the last assignment counts
            if (!old) es.push_back(e);
        }
        fileText += l;
        if (k + 1 < lines || (lines == 1 && sym_choose("newline", 2))) fileText += '\n';
    }
    bool dflt = divider == '=' && commenter == '#';
    tools::ConfigReader r = dflt ? tools::ConfigReader("the.file") : tools::ConfigReader(std::string("the.file"), divider, commenter);
    for (auto const& e : es) {
        std::string v = r.get<std::string>(e.key);
        sym_assert(v == e.val, "value of a key");
    }
    sym_assert(true, "read");
    sym_end();
}
extern "C" void config_line() { config(1, 4, '=', '#'); }
extern "C" void config_lines() { config(2, 3, '=', '#'); }
extern "C" void config_other() { config(1, 4, ':', ';'); }
extern "C" void config_blanks() {                                // every blank is left out, wherever it is
    std::string b(5, ' ');
    for (int i = 0; i < 5; i++) { long c = sym_int(nm("blank", i).c_str(), 9, 32); sym_assume((c <= 13 && c != 10) || c == 32); b[i] = (char)c; }
    fileText = std::string() + b[0] + "k" + b[1] + "e=" + b[2] + "v" + b[3] + "w" + b[4] + "\n" + b[0] + b[1] + "\n" + b[2] + "#x=3\n" + b[3] + "x" + b[4] + "=5";
    tools::ConfigReader r("the.file");
    sym_assert(r.get<std::string>("ke") == "vw", "value of a key");
    sym_assert(r.get<std::string>("x") == "5", "value of a key");
    sym_end();
}
extern "C" void config_number() {
    int d = sym_int("digit", 0, 9), neg = sym_choose("neg", 2);
    fileText = std::string(" n = ") + (neg ? "-" : "") + "4" + (char)('0' + d) + "\nm=7";
    tools::ConfigReader r("the.file");
    int want = (neg ? -1 : 1) * (40 + d);
    sym_assert(r.get<int>("n") == want, "whole number");
    sym_assert(r.get<long>("n") == want, "whole number");
    sym_assert(r.get<double>("n") == want, "number");
    sym_assert(r.get<int>("m") == 7, "whole number");
    sym_assert(r.get<int>("n") == want, "asked again");
    sym_end();
}
extern "C" void config_missing_key() {
    fileText = "a=1";
    tools::ConfigReader r("the.file");
    std::string k = line(0, 1, "k");
    sym_assume(k[0] != 'a');
    sym_assert(r.get<int>("a") == 1, "whole number");
    sym_expect_abort(1);
    r.get<int>(k);
    sym_fail("a key that is not there is an error");
}
extern "C" void config_missing_file() {
    fileThere = false;
    sym_assert(!fileThere, "no file");
    sym_expect_abort(1);
    tools::ConfigReader r("the.file");
    sym_fail("a file that is not there is an error");
}
// ---- command line
struct Args {
    std::vector<std::string> s; std::vector<char*> p;
    void add(std::string const& x) { s.push_back(x); }
    char** argv() { p.clear(); for (auto& x : s) p.push_back(&x[0]); p.push_back(nullptr); return p.data(); }
};
static std::string word(const char* id, int n) {
    std::string s;
    for (int i = 0; i < n; i++) { long c = sym_int(nm(id, i).c_str(), 33, 126); s.push_back((char)c); }
    return s;
}
extern "C" void command_line() {
    Args a;
    std::string w0 = word("a", 1 + sym_choose("la", 2)), w1 = word("b", 1 + sym_choose("lb", 2));
    int d = sym_int("digit", 0, 9);
    a.add("program"); a.add(w0); a.add(std::string("-1") + (char)('0' + d)); a.add(w1); a.add("42");
    std::string x, z; int y = 0; double w = 0;
    tools::read_command_line(5, a.argv(), x, y, z, w);
    sym_assert(x == w0, "first argument");
    sym_assert(y == -(10 + d), "second argument");
    sym_assert(z == w1, "third argument");
    sym_assert(w == 42, "fourth argument");
    sym_end();
}
extern "C" void command_line_blanks() {                            // what one argument holds does not shift the others
    Args a;
    std::string w0 = "xy"; char c = (char)sym_int("c", 1, 126);
    w0.insert(w0.begin() + sym_choose("at", 3), c);
    a.add("program"); a.add(w0); a.add("-17"); a.add("z");
    std::string x, z; int y = 0;
    tools::read_command_line(4, a.argv(), x, y, z);
    size_t b = 0, e;
    while (b < 3 && blank(w0[b])) b++;
    for (e = b; e < 3 && !blank(w0[e]);) e++;
    sym_assert(x == w0.substr(b, e - b), "first argument");
    sym_assert(y == -17, "second argument");
    sym_assert(z == "z", "third argument");
    std::string x2; int y2 = 0;
    a.s = {"program", "", "5"};
    tools::read_command_line(3, a.argv(), x2, y2);
    sym_assert(x2.empty() && y2 == 5, "empty argument");
    sym_end();
}
extern "C" void command_line_untyped() {                           // READ_CMD_LINE: arguments take the type they are used as
    int d = sym_int("digit", 0, 9), neg = sym_choose("neg", 2), last = 4 * sym_choose("last", 3);
    std::string n = std::string(neg ? "-" : "") + "12345678" + (char)('0' + d);
    Args a; a.add("program"); a.add(n); a.add("4000000000"); a.add(std::string("123456789012345678") + (char)('0' + last)); a.add("1"); a.add("0"); a.add("name");
    int argc = 7; char** argv = a.argv();
    using namespace hub::tools;
    READ_CMD_LINE(argc, argv, o, big, huge, yes, no, text)
    long v = 123456780L + d;
    if (neg) v = -v;
    sym_assert((int)o == v && o.as<int>() == v, "int");
    sym_assert((long)o == v && o.as<long>() == v, "long");
    sym_assert((long long)o == v && o.as<long long>() == v, "long long");
    sym_assert((double)o == v && o.as<double>() == v, "double");
    sym_assert((long double)o == v && o.as<long double>() == v, "long double");
    float f = 4e9f;
    sym_assert((float)big == f && big.as<float>() == f, "float");
    sym_assert((long)big == 4000000000L && big.as<long>() == 4000000000L && (long long)big == 4000000000L && big.as<long long>() == 4000000000L, "long");
    sym_assert((unsigned long)big == 4000000000UL && big.as<unsigned long>() == 4000000000UL && (unsigned long long)big == 4000000000UL && big.as<unsigned long long>() == 4000000000UL, "unsigned long");
    unsigned long h = 1234567890123456780UL + last;
    sym_assert((unsigned long)huge == h && huge.as<unsigned long>() == h && (long long)huge == (long long)h && (long double)huge == (long double)h, "all digits");
    sym_assert((bool)yes && !(bool)no, "bool");
    std::string t = text;
    sym_assert(t == "name" && text.as<std::string>() == "name" && std::string((const char*)text) == "name", "text");
    sym_assert((std::string)huge == a.s[3], "text");
    sym_end();
}
extern "C" void command_line_none() {
    Args a; a.add("program");
    tools::read_command_line(1, a.argv());
    sym_assert(true, "no argument wanted, none given");
    sym_end();
}
extern "C" void command_line_count() {
    Args a;
    int n = sym_choose("n", 5);
    sym_assume(n != 2);
    a.add("program");
    for (int i = 0; i < n; i++) a.add(nm("v", i));
    std::string x, y;
    sym_assert(n != 2, "wrong number of arguments");
    sym_expect_abort(1);
    tools::read_command_line(n + 1, a.argv(), x, y);
    sym_fail("a wrong number of arguments is an error");
}
