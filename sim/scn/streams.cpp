// Output to streams: the device behind a stream runs full, breaks, or throws.
#include "scn.h"

#include <teiacare/sdk/argparse/argument_parser.hpp>
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <chrono>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <streambuf>

using namespace scn;
using ns = std::chrono::nanoseconds;
namespace S = tc::sdk;

namespace
{
const char* const TAG = "C37";
constexpr i64 DAY = 86400'000'000'000LL;

struct broken
{
};
// a device without a buffer; from some byte on it is full for ever
struct device : std::streambuf
{
    std::string text;
    bool full = false, throws = false;

protected:
    int overflow(int c) override
    {
        char ch = (char)c;
        return c != EOF && xsputn(&ch, 1) == 1 ? c : EOF;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (!full && sim::fault_now(sim::F_OUTPUT_FAIL))
        {
            full = true;
            text.append(s, (size_t)sim::fault_value(n));  // a short write comes first
            sim::nontrivial();
            if (throws)
                throw broken();
        }
        if (full)
            return 0;
        text.append(s, (size_t)n);
        return n;
    }
    int sync() override { return full ? -1 : 0; }
};

constexpr int KINDS = 10;
const char* const kinds[KINDS] = {"a uuid", "a date", "a time", "a datetime", "a timedelta", "a point", "a line", "a range", "a rectangle", "a size"};
// one value: written to the stream, or as the text to_string() gives
template <class T>
std::string put(std::ostream* o, const T& x)
{
    if (!o)
        return x.to_string();
    *o << x;
    return {};
}
std::string value(std::ostream* o, int kind, i64 x)
{
    const i64 t = (x % (45000 * DAY) + 45000 * DAY) % (45000 * DAY);
    const int a = (int)(x % 1000), b = (int)(x / 1000 % 100000);
    S::datetime dt{S::sys_time_point{ns(t)}};
    switch (kind)
    {
    case 0:
    {
        static const char* const ids[] = {"123e4567-e89b-42d3-a456-426614174000", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff"};
        auto u = S::uuid_generator::instance().from_string(ids[(x % 3 + 3) % 3]);
        return put(o, u);
    }
    case 1: return put(o, dt.date());
    case 2: return put(o, dt.time());
    case 3: return put(o, dt);
    case 4: return put(o, S::timedelta{ns(x % (400 * DAY))});
    case 5: return put(o, S::point<int>(a, b));
    case 6: return put(o, S::line<int>(S::point<int>(a, b), S::point<int>(b, a)));
    case 7: return put(o, S::range<int>(std::min(a, b), std::max(a, b)));
    case 8: return put(o, S::rectangle<int>(a, b, 10, 20));
    default: return put(o, S::size<int>(std::abs(a), std::abs(b)));
    }
}
struct look
{
    std::ios::fmtflags flags;
    char fill;
    std::streamsize precision, width;
    bool operator==(const look&) const = default;
};
look look_of(std::ostream& o)
{
    return {o.flags(), o.fill(), o.precision(), o.good() ? o.width() : 0};
}
void warm_up()
{
    for (int k = 0; k < KINDS; k++)
        value(nullptr, k, 1);
    std::ostringstream o;
    o << std::setw(5) << std::string("x") << 1 << 1.5;
}

SCENARIO_FORK(streams_values, "streams.values")
{
    struct item
    {
        int kind, width;
        i64 x;
    };
    int n = (int)sim::draw(1, 8);
    std::vector<item> items;
    for (int i = 0; i < n; i++)
    {
        int kind = (int)sim::draw(0, KINDS - 1);
        int width = sim::chance(1, 4) ? (int)sim::draw(1, 60) : 0;
        items.push_back({kind, width, (i64)sim::fresh_seed()});
    }
    static const i64 masks[] = {0, std::ios::badbit, std::ios::failbit, std::ios::badbit | std::ios::failbit};
    auto mask = (std::ios::iostate)sim::one_of(masks);
    bool throws = sim::chance(1, 3);
    int style = (int)sim::draw(0, 3);
    bool memory = sim::chance(1, 3);
    sim::cfg.rate[sim::F_OUTPUT_FAIL] = sim::chance(1, 6) ? 0 : (int)sim::draw(2, 8);
    if (memory)
        sim::cfg.rate[sim::F_ALLOC_FAIL] = (int)sim::draw(2, 6);
    sim::run([&] {
        warm_up();
        size_t blocks = sim::live_blocks();
        {
            device dev;
            dev.throws = throws;
            dev.text.reserve(4096);
            std::ostream o(&dev);
            if (style & 1)
                o << std::left << std::hex << std::showbase;
            if (style & 2)
                o << std::setfill('.') << std::setprecision(3) << std::uppercase;
            o.exceptions(mask);
            std::string want;
            for (const item& x : items)
            {
                const char* name = kinds[x.kind];
                std::ostringstream plain;
                plain.flags(o.flags());
                plain.fill(o.fill());
                plain << std::setw(x.width) << value(nullptr, x.kind, x.x);
                const std::string complete = plain.str();
                look before = look_of(o);
                bool was_good = o.good(), was_full = dev.full, threw = false, no_memory = false;
                std::string so_far = dev.text;
                if (x.width)
                    o.width(x.width);
                if (memory)
                    sim::set_alloc_faults(true, true);
                try
                {
                    value(&o, x.kind, x.x);
                }
                catch (const std::ios_base::failure&)
                {
                    threw = true;
                }
                catch (const broken&)
                {
                    threw = true;
                }
                catch (const std::bad_alloc&)
                {
                    no_memory = true;
                }
                sim::set_alloc_faults(false);
                if (no_memory && !dev.full)  // (the exception that reports a failure of the device needs memory, too)
                {
                    // nothing was written, and the stream was not touched
                    if (dev.text != so_far || o.good() != was_good)
                        sim::fail(TAG, "writing %s failed for lack of memory, and yet something was written", name);
                    o.width(0);
                    continue;
                }
                if (!was_good)
                {
                    if (dev.text != so_far || o.good())
                        sim::fail(TAG, "%s was written to a stream which had failed before", name);
                    o.width(0);
                    continue;
                }
                if (dev.full)
                {
                    if (o.good())
                        sim::fail(TAG, "%s could not be written completely, and the stream is good", name);
                    if (mask && o.rdstate() & mask && !threw && !no_memory)
                        sim::fail(TAG, "%s could not be written and no exception was thrown although the stream's exceptions are on", name);
                    if (threw && !(o.rdstate() & mask))
                        sim::fail(TAG, "an exception was thrown although the stream's exceptions are off");
                    if (dev.text.size() < so_far.size() || complete.compare(0, dev.text.size() - so_far.size(), dev.text, so_far.size()))
                        sim::fail(TAG, "%s: the device got \"%s\", which is not the beginning of \"%s\"", name, dev.text.c_str() + so_far.size(), complete.c_str());
                }
                else
                {
                    if (!o.good() || threw || was_full)
                        sim::fail(TAG, "writing %s failed for no reason", name);
                    if (dev.text != so_far + complete)
                        sim::fail(TAG, "%s: the device got \"%s\" instead of \"%s\"", name, dev.text.c_str() + so_far.size(), complete.c_str());
                    if (!(look_of(o) == before))
                        sim::fail(TAG, "after %s was written the formatting of the stream is another", name);
                }
            }
        }
        if (sim::leaked(blocks))
            sim::fail(TAG, "writing to a stream leaks %lld blocks", (long long)(sim::live_blocks() - blocks));
    });
}

// the messages of argument_parser
SCENARIO_FORK(streams_help, "streams.help")
{
    int n = (int)sim::draw(1, 4);
    std::vector<int> sc;
    for (int i = 0; i < n; i++)
        sc.push_back((int)sim::draw(0, 4));
    int style = (int)sim::draw(0, 3), options = (int)sim::draw(0, 4);
    sim::cfg.rate[sim::F_OUTPUT_FAIL] = sim::chance(1, 4) ? 0 : (int)sim::draw(3, 60);
    sim::run([&] {
        std::vector<int> numbers(4, -1);
        std::string input;
        bool loud = false;
        S::argument_parser p("program", "1.2.3", "a program with a description");
        for (int i = 0; i < options; i++)
        {
            if (i % 2)
                p.add_option<int>("number" + std::to_string(i), (char)('a' + i), numbers[i], 5 + i, "number " + std::to_string(i), false, "APP_N" + std::to_string(i));
            else
                p.add_option<int>("number" + std::to_string(i), numbers[i], 5 + i, "number " + std::to_string(i));
        }
        p.add_flag("loud", 'L', loud, "be loud", "APP_LOUD");
        p.add_positional<std::string>("input", input, "the input");
        auto* oldout = std::cout.rdbuf();
        auto* olderr = std::cerr.rdbuf();
        auto act = [&](int what) {
            static const char* const lines[5][3] = {{"program", "an input", nullptr}, {"program", "--help", nullptr}, {"program", "-v", nullptr}, {"program", "--nonsense", nullptr}, {"program", nullptr, nullptr}};
            std::vector<char*> a;
            for (auto* s : lines[what])
                if (s)
                    a.push_back((char*)s);
            return p.parse((int)a.size(), a.data());
        };
        auto set = [&](std::ostream& o) {
            o.flags(std::ios::dec | std::ios::skipws);
            o.fill(' ');
            o.width(0);  // (a failed stream keeps it)
            if (style & 1)
                o << std::right << std::hex << std::showbase;
            if (style & 2)
                o << std::setfill('.') << std::setprecision(3) << std::uppercase;
        };
        // without faults first: what the messages are
        std::vector<std::string> want(5);
        sim::no_faults(true);
        for (int i = 0; i < 5; i++)
        {
            device dev, other;
            std::cout.rdbuf(&dev);
            std::cerr.rdbuf(&other);
            set(std::cout);
            act(i);
            want[i] = dev.text;
        }
        sim::no_faults(false);
        for (int what : sc)
        {
            device out, err;
            std::cout.rdbuf(&out);
            std::cerr.rdbuf(&err);
            std::cout.clear();
            std::cerr.clear();
            set(std::cout);
            set(std::cerr);
            look before_out = look_of(std::cout), before_err = look_of(std::cerr);
            S::parse_result r = act(what);
            S::parse_result must = what == 0 ? S::parse_result::success : what <= 2 ? S::parse_result::quit : S::parse_result::error;
            if (r != must)
                sim::fail(TAG, "parse() returned %d instead of %d when its messages could not be written", (int)r, (int)must);
            if (want[what].compare(0, out.text.size(), out.text) || (!out.full && out.text.size() != want[what].size()))
                sim::fail(TAG, "the messages are \"%s\" instead of \"%s\"", out.text.c_str(), want[what].c_str());
            if (out.full != !std::cout.good())
                sim::fail(TAG, "the state of the standard output is wrong after a message was written");
            if (!(look_of(std::cout) == before_out) || !(look_of(std::cerr) == before_err))
                sim::fail(TAG, "after a message was written the formatting of the standard output is another");
            if (what == 0 && input != "an input")
                sim::fail("C34", "parsed \"%s\"", input.c_str());
        }
        std::cout.clear();
        std::cerr.clear();
        std::cout.rdbuf(oldout);
        std::cerr.rdbuf(olderr);
    });
}
}
