// dates, times, uuids as text: used by many threads at once, and when memory runs out
#include "scn.h"

#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>
#include <teiacare/sdk/version.hpp>

#include <chrono>
#include <iomanip>
#include <sstream>

using namespace scn;
using namespace std::chrono;
using ns = std::chrono::nanoseconds;
namespace S = tc::sdk;

namespace
{
constexpr i64 DAY = 86400'000'000'000LL;
constexpr int KINDS = 24;
const char* const kind_names[KINDS] = {"date::to_string", "date::to_string(format)", "date::from_string", "date::from_string of nonsense", "time::to_string<nanoseconds>", "time::to_string<seconds>(format)", "time::from_string", "datetime::to_string",
                                       "datetime::to_string<nanoseconds>(format)", "datetime::from_string", "datetime::from_string of nonsense", "timedelta::to_string", "timedelta::to_string<nanoseconds>", "datetime << stream", "timedelta << stream", "date << stream",
                                       "uuid::to_string", "uuid_generator::from_string", "uuid_generator::from_string of nonsense", "uuid_generator::is_valid", "time << stream", "datetime arithmetic", "time::from_string of nonsense", "date::to_string, time::to_string of the same instant"};
std::string num(i64 v) { return std::to_string(v); }
// how exactly a text is read: the unit, in nanoseconds
constexpr i64 unit[] = {1'000'000'000, 1'000'000, 1'000, 1, 60'000'000'000, 3600'000'000'000};
int precision_of(i64 x, int n) { return (int)((uint64_t)x / 1'234'567 % n); }
int digits(char* b, size_t n, int p, i64 t)
{
    return p == 0 || p > 3 ? 0 : snprintf(b, n, ".%0*lld", p * 3, (long long)(t % 1'000'000'000 / unit[p]));
}
template <class D>
S::datetime read_datetime(const char* s) { return S::datetime::from_string<D>(s); }
template <class D>
S::time read_time(const char* s) { return S::time::from_string<D>(s); }
S::datetime (*const datetime_readers[])(const char*) = {read_datetime<seconds>, read_datetime<milliseconds>, read_datetime<microseconds>, read_datetime<nanoseconds>};
S::time (*const time_readers[])(const char*) = {read_time<seconds>, read_time<milliseconds>, read_time<microseconds>, read_time<nanoseconds>, read_time<minutes>, read_time<hours>};
// one operation on a value that depends on x; what comes out, as text
std::string compute(int kind, i64 x)
{
    i64 t = (x % (45000 * DAY) + 45000 * DAY) % (45000 * DAY);
    S::datetime dt{S::sys_time_point{ns(t)}};
    S::date d = dt.date();
    S::time tm = dt.time();
    S::timedelta td{ns(x % (400 * DAY))};
    char b[64];
    const i64 sec = t / 1'000'000'000 % 86400;
    switch (kind)
    {
    case 0: return d.to_string();
    case 1: return d.to_string("%d/%m/%y it is a %A of %B, day %j");
    case 2:
        snprintf(b, sizeof b, "%04d-%02u-%02u", (int)d.year(), (unsigned)d.month(), (unsigned)d.day());
        return S::date::from_string(b) == d ? "same" : "changed";
    case 3:
        try
        {
            S::date::from_string("20x4-99-77 and a text too long for the small buffer");
            return "parsed";
        }
        catch (const std::runtime_error& e)
        {
            return e.what();
        }
    case 4: return tm.to_string<nanoseconds>();
    case 5: return tm.to_string<seconds>("%H hours %M minutes %S seconds");
    case 6:
    {
        int p = precision_of(x, 6), n = snprintf(b, sizeof b, "%02d:%02d:%02d", (int)(sec / 3600), p == 5 ? 0 : (int)(sec / 60 % 60), p > 3 ? 0 : (int)(sec % 60));
        digits(b + n, sizeof b - n, p, t);
        return num(time_readers[p](b).to_duration().count());
    }
    case 7: return dt.to_string();
    case 8: return dt.to_string<nanoseconds>("%F -- %T -- %Y");
    case 9:
    {
        int p = precision_of(x, 4), n = snprintf(b, sizeof b, "%04d-%02u-%02uT%02d:%02d:%02d", (int)d.year(), (unsigned)d.month(), (unsigned)d.day(), (int)(sec / 3600), (int)(sec / 60 % 60), (int)(sec % 60));
        digits(b + n, sizeof b - n, p, t);
        return num(datetime_readers[p](b).to_time_point().time_since_epoch().count());
    }
    case 10:
        try
        {
            datetime_readers[precision_of(x, 4)]("this is not a datetime at all");
            return "parsed";
        }
        catch (const std::runtime_error& e)
        {
            return e.what();
        }
    case 11: return td.to_string();
    case 12: return td.to_string<nanoseconds>();
    case 13:
    case 14:
    case 15:
    case 20:
    {
        std::ostringstream os;
        os.exceptions(std::ios::badbit | std::ios::failbit);
        if (kind == 13)
            os << dt;
        else if (kind == 14)
            os << td;
        else if (kind == 15)
            os << d;
        else
            os << tm;
        return os.str();
    }
    case 16:
    case 17:
    case 19:
    {
        uint64_t a = (uint64_t)x * 0x9E3779B97F4A7C15ull, c = a * 0xff51afd7ed558ccdull;
        snprintf(b, sizeof b, "%08x-%04x-%04x-%04x-%012llx", (unsigned)(a >> 32), (unsigned)(a >> 16) & 0xffff, (unsigned)a & 0xffff, (unsigned)(c >> 48), (unsigned long long)c & 0xffffffffffffull);
        auto& g = S::uuid_generator::instance();
        if (kind == 19)
            return std::string(g.is_valid(b) ? "valid " : "invalid ") + (g.is_valid(b + 1) ? "valid" : "invalid");
        S::uuid u = g.from_string(b);
        return kind == 16 ? u.to_string() : u.to_string() == b ? "same" : "changed";
    }
    case 18:
        try
        {
            (void)S::uuid_generator::instance().from_string("{6c1a4f2e-nonsense}");
            return "parsed";
        }
        catch (const std::runtime_error& e)
        {
            return e.what();
        }
    case 21: return num(((dt + td) - dt).total_nanoseconds().count()) + (dt + td > dt ? " later" : " not later") + num((dt - td).date().iso_weekday());
    case 22:
        try
        {
            time_readers[precision_of(x, 6)]("neither time nor date, in a text of some length");
            return "parsed";
        }
        catch (const std::runtime_error& e)
        {
            return e.what();
        }
    case 23: return d.to_string("%F") + " " + tm.to_string<seconds>("%T");
    }
    return "";
}
// the same without the library, where that is easy
std::string truth(int kind, i64 x)
{
    i64 t = (x % (45000 * DAY) + 45000 * DAY) % (45000 * DAY);
    const time_t secs = t / 1'000'000'000;
    struct tm g;
    gmtime_r(&secs, &g);
    char b[128];
    switch (kind)
    {
    case 2:
    case 17: return "same";
    case 5: strftime(b, sizeof b, "%H hours %M minutes %S seconds", &g); return b;
    case 6: return num((t % DAY) / unit[precision_of(x, 6)] * unit[precision_of(x, 6)]);
    case 9: return num(t / unit[precision_of(x, 4)] * unit[precision_of(x, 4)]);
    case 23: strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &g); return b;
    }
    return "";
}
void check_truth(int kind, i64 x, const std::string& got)
{
    std::string want = truth(kind, x);
    if (!want.empty() && got != want)
        sim::fail("C33", "%s: \"%s\" instead of \"%s\", after other conversions in the same thread", kind_names[kind], got.c_str(), want.c_str());
}
// lazily created parts of the C++ library
void warm_up()
{
    for (int k = 0; k < KINDS; k++)
        for (int p = 0; p < (k == 6 || k == 9 || k == 10 || k == 22 ? 12 : 1); p++) // in every precision
            compute(k, 1'700'000'000'123'456'789LL + p * 1'234'567LL);
}

struct job
{
    int kind;
    i64 x;
};
i64 some_instant()
{
    static const i64 base[] = {1'700'000'000'123'456'789LL, 0, DAY - 1, 11016 * DAY, 951'782'400'000'000'000LL, 4'102'444'799'999'999'999LL, 59 * 1'000'000'000LL + 999'999'999, 39000 * DAY + 3600'000'000'000LL};
    return sim::one_of(base) + sim::draw(0, 3) * 86399'000'000'001LL + sim::draw(0, 50) * 1'234'567LL;
}
SCENARIO_FORK(values_threads, "values.threads")
{
    int nt = (int)sim::draw(2, 5);
    std::vector<std::vector<job>> jobs(nt);
    int focus = sim::chance(1, 2) ? (int)sim::draw(0, KINDS - 1) : -1;
    for (auto& j : jobs)
    {
        int n = (int)sim::draw(1, 6);
        for (int i = 0; i < n; i++)
            j.push_back({focus >= 0 ? focus : (int)sim::draw(0, KINDS - 1), some_instant()});
    }
    sim::enable(sim::F_THREAD_STALL, 1, 5);
    sim::nontrivial();
    sim::run([&] {
        warm_up();
        std::vector<std::vector<std::string>> want(nt);
        for (int t = 0; t < nt; t++)
            for (auto& j : jobs[t])
            {
                want[t].push_back(compute(j.kind, j.x));
                check_truth(j.kind, j.x, want[t].back());
            }
        clients c;
        for (int t = 0; t < nt; t++)
            c.go([&, t] {
                for (size_t i = 0; i < jobs[t].size(); i++)
                {
                    std::string s = compute(jobs[t][i].kind, jobs[t][i].x);
                    if (s != want[t][i])
                        sim::fail("C33", "%s: \"%s\" when used by several threads, \"%s\" when used alone", kind_names[jobs[t][i].kind], s.c_str(), want[t][i].c_str());
                }
            });
        c.join();
    });
}
SCENARIO_FORK(values_memory, "values.memory")
{
    int n = (int)sim::draw(1, 6);
    std::vector<job> jobs;
    for (int i = 0; i < n; i++)
        jobs.push_back({(int)sim::draw(0, KINDS - 1), some_instant()});
    static const i64 rates[] = {2, 3, 6, 15};
    sim::cfg.rate[sim::F_ALLOC_FAIL] = (int)sim::one_of(rates);
    sim::run([&] {
        warm_up();
        std::vector<std::string> want;
        for (auto& j : jobs)
        {
            want.push_back(compute(j.kind, j.x));
            check_truth(j.kind, j.x, want.back());
        }
        size_t blocks = sim::live_blocks();
        for (int i = 0; i < n; i++)
        {
            {
                i64 f = sim::fault_fired(sim::F_ALLOC_FAIL);
                bool threw = false;
                std::string s;
                sim::set_alloc_faults(true);
                try
                {
                    s = compute(jobs[i].kind, jobs[i].x);
                }
                catch (const std::exception& e)
                {
                    threw = true;
                }
                sim::set_alloc_faults(false);
                bool failed = sim::fault_fired(sim::F_ALLOC_FAIL) != f;
                if (failed)
                    sim::nontrivial();
                if (threw && !failed)
                    sim::fail("C33", "%s threw although no allocation failed", kind_names[jobs[i].kind]);
                // nonsense is reported either way; the text of the report may be cut short
                bool nonsense = jobs[i].kind == 3 || jobs[i].kind == 10 || jobs[i].kind == 18 || jobs[i].kind == 22;
                if (!threw && s != want[i] && !(nonsense && s != "parsed"))
                    sim::fail("C33", "%s: \"%s\" when an allocation failed, instead of \"%s\" or an exception", kind_names[jobs[i].kind], s.c_str(), want[i].c_str());
            }
            if (sim::leaked(blocks))
                sim::fail("C33", "%s leaked %lld blocks when an allocation failed", kind_names[jobs[i].kind], (long long)(sim::live_blocks() - blocks));
            std::string again = compute(jobs[i].kind, jobs[i].x);
            if (again != want[i])
                sim::fail("C33", "%s: \"%s\" after an allocation failed, instead of \"%s\"", kind_names[jobs[i].kind], again.c_str(), want[i].c_str());
        }
    });
}
}
