// Specification intrinsics used by the contract drivers (drivers/C*.cpp).
//
// With VC_SYMBOLIC the drivers are not compiled into a program: the extractor
// reads them together with /repo's headers and the verifier gives the vc_*
// functions their logical meaning (arbitrary value, assumption, obligation,
// bounded sum, quantifier).  Without VC_SYMBOLIC the same text becomes an
// executable in which vc_any draws concrete values: it replays counterexamples
// and serves as the bounded stand-in.
#ifndef VC_HPP_
#define VC_HPP_
#include <algorithm>
#include <complex>
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#define VC_STR2(x) #x
#define VC_STR(x) VC_STR2(x)

#ifdef VC_SYMBOLIC

void vc_assume(bool);
void vc_assert(bool, const char*);
template <typename T> T vc_any(const char*);
uint64_t vc_u64(const char*);
int64_t vc_i64(const char*);
bool vc_bool(const char*);
double vc_real(const char*);
std::string vc_name(const char*);
std::complex<double> vc_cplx(const char*);
template <typename T> std::vector<T> vc_seq(const char*);
template <typename S> std::function<S> vc_fun(const char*);
template <typename T> std::vector<T> vc_fresh_seq(const char*); // a new one in every iteration of a loop
template <typename T> std::vector<T> vc_seq_n(const char* n, uint64_t len)
{
    std::vector<T> v = vc_seq<T>(n);
    vc_assume(v.size() == len);
    return v;
}
template <typename F> auto vc_sum(uint64_t, F f) -> typename std::decay<decltype(f(uint64_t()))>::type { return {}; }
template <typename C, typename F> auto vc_sum_seq(const C& c, F f) -> typename std::decay<decltype(f(c[0]))>::type { return {}; }
template <typename F> bool vc_forall(uint64_t, F) { return true; }
template <typename F> bool vc_exists(uint64_t, F) { return true; }
double vc_pi();
double vc_cos(double);
double vc_sin(double);
template <typename A, typename B> bool vc_same(const A&, const B&);
template <typename A, typename B> bool vc_near(const A&, const B&);
template <typename A, typename B> bool vc_is_perm(const A&, const B&);
bool vc_small(uint64_t, uint64_t); // limits the concrete run only
template <typename F> void vc_lines(std::istringstream&, uint64_t n, F f) { f(n); } // the stream holds the lines f(0), ..., f(n - 1)
void vc_threads();                 // concrete run: draw a thread count
#define VC_PROP(name) void prop_##name()
#define VC_REFLECT(T, ...)
#define VC_REFLECT_GEN(T, expr)

#else // ------------------------------------------------------------ executable

#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <unistd.h>
#ifdef _OPENMP
#include <omp.h>
#endif

namespace vc {
    struct Skip {
    };
    struct Fail {
        std::string name;
    };

    struct Prop {
        const char* name;
        void (*f)();
    };
    inline std::vector<Prop>& props()
    {
        static std::vector<Prop> p;
        return p;
    }
    struct Reg {
        Reg(const char* n, void (*f)()) { props().push_back({n, f}); }
    };

    struct Tape {
        int mode = 0; // 0: enumeration by cost, 1: random, 2: replay
        std::vector<unsigned> choice, radix;
        std::size_t pos = 0;
        unsigned budget = 0, spent = 0;
        std::mt19937_64 rng;
        std::map<std::string, std::string> fixed;
        std::vector<std::pair<std::string, std::string>> trace;
        const char* prop = "";

        unsigned pick(unsigned n)
        {
            if(mode == 1) {
                // geometric around the simple values, sometimes uniform
                std::uniform_int_distribution<unsigned> u(0, 3);
                if(u(rng) == 0) return std::uniform_int_distribution<unsigned>(0, n - 1)(rng);
                unsigned r = std::uniform_int_distribution<unsigned>(0, std::min(n - 1, 9u))(rng);
                return r;
            }
            unsigned left = budget - std::min(budget, spent);
            unsigned lim  = std::min(n, left + 1);
            unsigned c    = 0;
            if(pos < choice.size()) {
                c = choice[pos];
                if(c >= lim) c = lim - 1;
                choice[pos] = c;
                radix[pos]  = lim;
            } else {
                choice.push_back(0);
                radix.push_back(lim);
            }
            ++pos;
            spent += c;
            return c;
        }
        void start()
        {
            pos = 0;
            spent = 0;
            trace.clear();
        }
        bool next()
        {
            choice.resize(pos);
            radix.resize(pos);
            while(!choice.empty()) {
                if(choice.back() + 1 < radix.back()) {
                    ++choice.back();
                    return true;
                }
                choice.pop_back();
                radix.pop_back();
            }
            return false;
        }
    };
    inline Tape& tape()
    {
        static Tape t;
        return t;
    }

    // integer and floating literals harvested from the sources under test
    inline const std::vector<long double>& literals()
    {
        static const std::vector<long double> l = {
#ifdef VC_LITERALS
#include VC_LITERALS
#endif
        };
        return l;
    }

    template <typename T>
    typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, const std::vector<T>&>::type domain()
    {
        static const std::vector<T> d = [] {
            std::vector<T> r;
            auto put = [&r](long double v) {
                if(v < static_cast<long double>(std::numeric_limits<T>::min()) || v > static_cast<long double>(std::numeric_limits<T>::max())) return;
                T x = static_cast<T>(v);
                if(std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
            };
            for(int i = 0; i < 6; ++i) {
                put(i);
                if(i && std::is_signed<T>::value) put(-i);
            }
            for(auto l : literals())
                if(l == std::floor(l) && l < 1e6) {
                    put(l);
                    put(l + 1);
                    put(l - 1);
                }
            for(int i = 6; i < 40; ++i) put(i);
            if(std::is_signed<T>::value)
                for(int i = 6; i < 40; ++i) put(-i);
            put(100);
            put(1000);
            put(65537);
            put(4294967296.0L);
            put(std::numeric_limits<T>::max());
            put(std::numeric_limits<T>::min());
            return r;
        }();
        return d;
    }
    template <typename T>
    typename std::enable_if<std::is_floating_point<T>::value, const std::vector<T>&>::type domain()
    {
        static const std::vector<T> d = [] {
            std::vector<T> r;
            auto put = [&r](long double v) {
                T x = static_cast<T>(v);
                if(std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
            };
            for(double v : {0., 1., -1., 0.5, 2., -0.5, -2., 0.25, 3., 1.5, 0.1, -0.3, 0.7, 3.141592653589793, -3.141592653589793, 7.25, -11.5, 1e-3, 40.}) put(v);
            for(auto l : literals())
                if(std::abs(l) < 1e6) {
                    put(l);
                    put(-l);
                    put(l + 0.5);
                }
            return r;
        }();
        return d;
    }

    inline std::string text(double v)
    {
        char b[64];
        std::snprintf(b, sizeof b, "%.17g", v);
        return b;
    }
    inline std::string text(float v) { return text(static_cast<double>(v)); }
    template <typename T>
    typename std::enable_if<std::is_integral<T>::value, std::string>::type text(T v)
    {
        return std::to_string(+v);
    }
    template <typename T>
    typename std::enable_if<std::is_floating_point<T>::value, T>::type parse(const std::string& s, T*)
    {
        return static_cast<T>(std::strtod(s.c_str(), nullptr));
    }
    template <typename T>
    typename std::enable_if<std::is_integral<T>::value, T>::type parse(const std::string& s, T*)
    {
        if(s == "true") return static_cast<T>(1);
        if(s == "false") return static_cast<T>(0);
        return std::is_signed<T>::value ? static_cast<T>(std::strtoll(s.c_str(), nullptr, 10)) : static_cast<T>(std::strtoull(s.c_str(), nullptr, 10));
    }

    template <typename T, typename = void>
    struct Gen;
    template <typename T>
    T draw(const std::string& n)
    {
        return Gen<T>::make(n);
    }

    template <typename T>
    struct Gen<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> {
        static const std::vector<T>& dom() { return domain<T>(); }
        static T make(const std::string& n)
        {
            Tape& t = tape();
            T v{};
            auto it = t.fixed.find(n);
            if(it != t.fixed.end())
                v = parse(it->second, static_cast<T*>(nullptr));
            else if(t.mode != 2) {
                auto& d = dom();
                if(t.mode == 1 && std::is_floating_point<T>::value && t.rng() % 3 == 0)
                    v = static_cast<T>(std::uniform_real_distribution<double>(-10, 10)(t.rng));
                else
                    v = d[t.pick(d.size())];
            }
            t.trace.emplace_back(n, text(v));
            return v;
        }
    };
    template <>
    struct Gen<bool> {
        static bool make(const std::string& n)
        {
            Tape& t = tape();
            bool v  = false;
            auto it = t.fixed.find(n);
            if(it != t.fixed.end())
                v = it->second == "1" || it->second == "true";
            else if(t.mode != 2)
                v = t.mode == 1 ? (t.rng() & 1) : t.pick(2) != 0;
            t.trace.emplace_back(n, v ? "1" : "0");
            return v;
        }
    };
    template <>
    struct Gen<std::string> {
        static std::string make(const std::string& n)
        {
            static const std::vector<std::string> d = {"a", "b", "c", "", "aa", "ab", "B", "d", "ba", "j", "k1", "i2"};
            Tape& t = tape();
            std::string v = "a";
            auto it = t.fixed.find(n);
            if(it != t.fixed.end())
                v = it->second;
            else if(t.mode != 2)
                v = d[t.pick(d.size())];
            t.trace.emplace_back(n, v);
            return v;
        }
    };
    template <typename F>
    struct Gen<std::complex<F>> {
        static std::complex<F> make(const std::string& n)
        {
            F re = draw<F>(n + ".re");
            F im = draw<F>(n + ".im");
            return std::complex<F>(re, im);
        }
    };
    template <typename C>
    void draw_seq(C& c, const std::string& n, std::size_t want = std::size_t(-1))
    {
        Tape& t = tape();
        std::size_t len = 0;
        auto it = t.fixed.find(n + ".len");
        if(want != std::size_t(-1))
            len = want;
        else if(it != t.fixed.end())
            len = std::strtoull(it->second.c_str(), nullptr, 10);
        else if(t.mode != 2)
            len = t.mode == 1 ? t.rng() % 7 : t.pick(7);
        if(len > 100000) throw Skip();
        t.trace.emplace_back(n + ".len", std::to_string(len));
        for(std::size_t i = 0; i < len; ++i)
            c.push_back(draw<typename C::value_type>(n + "[" + std::to_string(i) + "]"));
    }
    template <typename T>
    struct Gen<std::vector<T>> {
        static std::vector<T> make(const std::string& n)
        {
            std::vector<T> v;
            draw_seq(v, n);
            return v;
        }
    };

    // structural visitors for records, see VC_REFLECT
    template <typename T>
    struct Reflect;
    struct Drawer {
        std::string n;
        template <typename F>
        void operator()(const char* f, F& x) const
        {
            x = draw<F>(n + "." + f);
        }
    };

    // ---- structural comparison
    template <typename T>
    auto has_reflect(int) -> decltype(Reflect<T>::on(), std::true_type());
    template <typename T>
    std::false_type has_reflect(...);
    template <typename T>
    auto is_cont(int) -> decltype(std::declval<const T&>().begin(), std::declval<const T&>().size(), typename T::value_type(), std::true_type());
    template <typename T>
    std::false_type is_cont(...);

    template <typename T, typename = void>
    struct Same {
        static bool eq(const T& a, const T& b) { return a == b; }
    };
    template <typename A>
    bool same(const A& a, const A& b)
    {
        return Same<A>::eq(a, b);
    }
    template <typename F>
    struct Same<F, typename std::enable_if<std::is_floating_point<F>::value>::type> {
        static bool eq(F a, F b)
        {
            if(a == b) return true;
            return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b));
        }
    };
    template <typename F>
    struct Same<std::complex<F>> {
        static bool eq(const std::complex<F>& a, const std::complex<F>& b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
    };
    template <typename T>
    struct Same<T, typename std::enable_if<decltype(is_cont<T>(0))::value && !std::is_same<T, std::string>::value && !decltype(has_reflect<T>(0))::value>::type> {
        static bool eq(const T& a, const T& b)
        {
            if(a.size() != b.size()) return false;
            auto i = a.begin();
            auto j = b.begin();
            for(; i != a.end(); ++i, ++j)
                if(!same(*i, *j)) return false;
            return true;
        }
    };
    template <typename T>
    struct Same<T, typename std::enable_if<decltype(has_reflect<T>(0))::value>::type> {
        static bool eq(const T& a, const T& b) { return Reflect<T>::same(a, b); }
    };

    inline void report(const char* what)
    {
        Tape& t = tape();
        std::string s = std::string("\nFAIL ") + t.prop + " " + what + "\n";
        for(auto& p : t.trace) s += "INPUT " + p.first + " " + p.second + "\n";
        s += "END\n";
        ssize_t r = ::write(1, s.data(), s.size());
        (void)r;
    }
    inline void on_signal(int s)
    {
        report(s == SIGALRM ? "does-not-terminate" : s == SIGABRT ? "assertion-or-abort" : "crash");
        _exit(3);
    }
    inline void on_death() { report("undefined-behaviour"); }

    template <typename S>
    struct Fun;
    template <typename R, typename... A>
    struct Fun<R(A...)> {
        std::string n;
        std::shared_ptr<std::map<std::string, R>> memo;
        static std::string key() { return ""; }
        template <typename X, typename... Y>
        static std::string key(const X& x, const Y&... y)
        {
            return text(x) + (sizeof...(y) ? "," : "") + key(y...);
        }
        R operator()(A... a) const
        {
            std::string k = key(a...);
            R v{};
#pragma omp critical(vc_fun)
            {
                auto it = memo->find(k);
                if(it == memo->end()) it = memo->emplace(k, draw<R>(n + "(" + k + ")")).first;
                v = it->second;
            }
            return v;
        }
    };
}

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

inline void vc_assume(bool c)
{
    if(!c) throw vc::Skip();
}
static unsigned long vc_nassert = 0;
inline void vc_assert(bool c, const char* name)
{
    ++vc_nassert;
    if(!c) throw vc::Fail{name};
}
template <typename T>
T vc_any(const char* n)
{
    return vc::draw<T>(n);
}
inline uint64_t vc_u64(const char* n) { return vc::draw<uint64_t>(n); }
inline int64_t vc_i64(const char* n) { return vc::draw<int64_t>(n); }
inline bool vc_bool(const char* n) { return vc::draw<bool>(n); }
inline double vc_real(const char* n) { return vc::draw<double>(n); }
inline std::string vc_name(const char* n) { return vc::draw<std::string>(n); }
inline std::complex<double> vc_cplx(const char* n) { return vc::draw<std::complex<double>>(n); }
template <typename T>
std::vector<T> vc_seq(const char* n)
{
    return vc::draw<std::vector<T>>(n);
}
template <typename T>
std::vector<T> vc_seq_n(const char* n, uint64_t len)
{
    std::vector<T> v;
    vc::draw_seq(v, n, len);
    vc_assume(v.size() == len);
    return v;
}
template <typename S>
std::function<S> vc_fun(const char* n)
{
    vc::Fun<S> f;
    f.n = n;
    f.memo.reset(new typename decltype(f.memo)::element_type());
    return f;
}
template <typename F>
auto vc_sum(uint64_t n, F f) -> typename std::decay<decltype(f(uint64_t()))>::type
{
    typename std::decay<decltype(f(uint64_t()))>::type s{};
    for(uint64_t i = 0; i < n; ++i) s = s + f(i);
    return s;
}
template <typename C, typename F>
auto vc_sum_seq(const C& c, F f) -> typename std::decay<decltype(f(c[0]))>::type
{
    typename std::decay<decltype(f(c[0]))>::type s{};
    for(auto& x : c) s = s + f(x);
    return s;
}
template <typename F>
bool vc_forall(uint64_t n, F f)
{
    for(uint64_t i = 0; i < n; ++i)
        if(!f(i)) return false;
    return true;
}
template <typename F>
bool vc_exists(uint64_t n, F f)
{
    for(uint64_t i = 0; i < n; ++i)
        if(f(i)) return true;
    return false;
}
inline double vc_pi() { return 3.14159265358979323846; }
inline double vc_cos(double x) { return std::cos(x); }
inline double vc_sin(double x) { return std::sin(x); }
template <typename A, typename B>
bool vc_same(const A& a, const B& b)
{
    return vc::same<A>(a, b);
}
inline bool vc_same(const std::ostringstream& a, const std::ostringstream& b) { return a.str() == b.str(); }
template <typename A, typename B>
bool vc_near(const A& a, const B& b)
{
    std::complex<double> x(a), y(b);
    return std::abs(x - y) <= 1e-9 * (1 + std::abs(x) + std::abs(y));
}
template <typename A, typename B>
bool vc_is_perm(const A& a, const B& b)
{
    std::vector<typename std::decay<decltype(*a.begin())>::type> l(b.begin(), b.end());
    if(a.size() != l.size()) return false;
    for(auto& x : a) {
        auto it = std::find_if(l.begin(), l.end(), [&x](const typename std::decay<decltype(*a.begin())>::type& y) { return vc::same(x, y); });
        if(it == l.end()) return false;
        l.erase(it);
    }
    return true;
}
inline bool vc_small(uint64_t n, uint64_t k) { return n <= k; }
template <typename F>
void vc_lines(std::istringstream& strm, uint64_t n, F f)
{
    std::string t;
    for(uint64_t i = 0; i < n; ++i) t += f(i) + "\n";
    // the last line need not be terminated
    if(t.size() > 1 && t.size() % 2 && t[t.size() - 2] != '\n') t.pop_back();
    strm.str(t);
}
inline void vc_threads()
{
#ifdef _OPENMP
    vc::Tape& t = vc::tape();
    unsigned n = t.mode == 1 ? t.rng() % 4 + 1 : 1 + t.pick(3);
    auto it = t.fixed.find("threads");
    if(it != t.fixed.end()) n = std::strtoull(it->second.c_str(), nullptr, 10);
    if(n < 1) n = 1;
    t.trace.emplace_back("threads", std::to_string(n));
    omp_set_num_threads(n);
#endif
}

#define VC_PROP(name)                                       \
    static void prop_##name();                              \
    static vc::Reg reg_##name("prop_" #name, &prop_##name); \
    static void prop_##name()

#define VC_F1(a) v(#a, x.a);
#define VC_F2(a, b) VC_F1(a) VC_F1(b)
#define VC_F3(a, b, c) VC_F2(a, b) VC_F1(c)
#define VC_F4(a, b, c, d) VC_F3(a, b, c) VC_F1(d)
#define VC_F5(a, b, c, d, e) VC_F4(a, b, c, d) VC_F1(e)
#define VC_S1(a) vc::same(x.a, y.a)
#define VC_S2(a, b) VC_S1(a) && VC_S1(b)
#define VC_S3(a, b, c) VC_S2(a, b) && VC_S1(c)
#define VC_S4(a, b, c, d) VC_S3(a, b, c) && VC_S1(d)
#define VC_S5(a, b, c, d, e) VC_S4(a, b, c, d) && VC_S1(e)
#define VC_PICK(_1, _2, _3, _4, _5, N, ...) N
#define VC_REFLECT(T, ...)                                                                    \
    namespace vc {                                                                            \
        template <>                                                                           \
        struct Reflect<T> {                                                                   \
            static void on() {}                                                               \
            static bool same(const T& x, const T& y)                                          \
            {                                                                                 \
                return VC_PICK(__VA_ARGS__, VC_S5, VC_S4, VC_S3, VC_S2, VC_S1)(__VA_ARGS__);  \
            }                                                                                 \
        };                                                                                    \
        template <>                                                                           \
        struct Gen<T> {                                                                       \
            static T make(const std::string& n)                                               \
            {                                                                                 \
                T x;                                                                          \
                Drawer v{n};                                                                  \
                VC_PICK(__VA_ARGS__, VC_F5, VC_F4, VC_F3, VC_F2, VC_F1)(__VA_ARGS__)          \
                return x;                                                                     \
            }                                                                                 \
        };                                                                                    \
    }
// generator given as an expression in the name n
#define VC_REFLECT_GEN(T, expr)                                     \
    namespace vc {                                                  \
        template <>                                                 \
        struct Gen<T> {                                             \
            static T make(const std::string& n) { return expr; }    \
        };                                                          \
    }

#ifndef VC_NO_MAIN
static int vc_once(vc::Prop& p, unsigned long& ok)
{
    vc::Tape& t = vc::tape();
    t.start();
#ifdef _OPENMP
    // now and then a larger team than there are processors
    static const int usual = omp_get_max_threads();
    auto it = t.fixed.find("team");
    int team = t.mode == 1 && t.rng() % 16 == 0 ? omp_get_num_procs() + 3 : usual;
    if(it != t.fixed.end()) team = std::atoi(it->second.c_str());
    if(team != usual) t.trace.emplace_back("team", std::to_string(team));
    omp_set_num_threads(team > 0 ? team : 1);
#endif
    alarm(20);
    try {
        p.f();
        ++ok;
    } catch(const vc::Skip&) {
    } catch(const vc::Fail& f) {
        vc::report(f.name.c_str());
        return 3;
    } catch(const std::exception& e) {
        vc::report(("exception:" + std::string(e.what())).c_str());
        return 3;
    }
    alarm(0);
    return 0;
}

static double vc_now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

int main(int argc, char** argv)
{
    vc::Tape& t = vc::tape();
    std::string prop, replay;
    double secs = 2;
    unsigned long seed = 1, maxruns = ~0ul;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if(a == "--list") {
            for(auto& p : vc::props()) std::printf("%s\n", p.name);
            return 0;
        }
        if(i + 1 >= argc) return 2;
        if(a == "--prop") prop = argv[++i];
        else if(a == "--time") secs = std::atof(argv[++i]);
        else if(a == "--seed") seed = std::strtoul(argv[++i], nullptr, 10);
        else if(a == "--replay") replay = argv[++i];
        else return 2;
    }
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(&vc::on_death);
    for(int s : {SIGALRM, SIGABRT, SIGFPE, SIGILL}) std::signal(s, &vc::on_signal);
    if(!__sanitizer_set_death_callback) std::signal(SIGSEGV, &vc::on_signal);
    if(!replay.empty()) {
        std::ifstream f(replay);
        std::string l;
        while(std::getline(f, l)) {
            std::istringstream is(l);
            std::string k, n, v;
            is >> k;
            if(k == "PROP") is >> prop;
            if(k == "INPUT") {
                is >> n;
                std::getline(is, v);
                t.fixed[n] = v.empty() ? v : v.substr(1);
            }
        }
    }
    for(auto& p : vc::props()) {
        if(!prop.empty() && prop != p.name) continue;
        t.prop = p.name;
        unsigned long ok = 0, runs = 0;
        if(!replay.empty()) {
            t.mode = 2;
            int r  = vc_once(p, ok);
            if(r) return r;
            std::printf("REPLAY %s %s\n", p.name, ok ? "passes" : "assumption-not-met");
            return 0;
        }
        double t0 = vc_now();
        unsigned complete = 0;
        bool stop = false;
        for(unsigned b = 0; b < 60 && !stop; ++b) {
            t.mode = 0;
            t.budget = b;
            t.choice.clear();
            t.radix.clear();
            do {
                int r = vc_once(p, ok);
                ++runs;
                if(r) return r;
                if(vc_now() - t0 > secs * 0.6) { stop = true; break; }
            } while(t.next());
            if(!stop) complete = b;
        }
        t.mode = 1;
        t.rng.seed(seed);
        while(vc_now() - t0 < secs && runs < maxruns) {
            int r = vc_once(p, ok);
            ++runs;
            if(r) return r;
        }
        std::string s;
        for(auto& x : t.trace) s += x.first + "=" + x.second + " ";
        std::printf("DONE %s runs=%lu accepted=%lu asserts=%lu budget=%u sample=%s\n", p.name, runs, ok, vc_nassert, complete, s.substr(0, 300).c_str());
    }
    return 0;
}
#endif
#endif
#endif
