// argument_parser: malformed command lines and environments, memory running out
#include "scn.h"

#include <teiacare/sdk/argparse/argument_parser.hpp>

#include <iostream>
#include <memory>
#include <streambuf>

using namespace scn;
namespace S = tc::sdk;

namespace
{
struct null_buffer : std::streambuf
{
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
// the variables of one command line
struct vars
{
    int number = -1;
    std::string text = "unset";
    double ratio = -1;
    std::vector<int> list;
    std::vector<std::string> names;
    bool loud = false, dry = false;
    std::string input = "unset";
    int count = -1;
    bool operator==(const vars&) const = default;
    std::string str() const
    {
        std::string s = "number=" + std::to_string(number) + " text=" + text + " ratio=" + std::to_string(ratio) + " list=";
        for (int i : list)
            s += std::to_string(i) + ",";
        s += " names=";
        for (auto& n : names)
            s += n + ",";
        return s + " loud=" + std::to_string(loud) + " dry=" + std::to_string(dry) + " input=" + input + " count=" + std::to_string(count);
    }
};
struct parser
{
    S::argument_parser p{"program", "1.2.3", "a program with a description that is long enough"};
    vars& v;
    explicit parser(vars& x) : v(x)
    {
        auto opt = std::make_unique<S::optional_argument<int>>("number", 'n', v.number, 5, "a number that is checked", false, "APP_NUMBER");
        opt->set_validator([](const int& n) { return n >= 0 && n < 1000; });
        p.add_option(std::move(opt));
        p.add_option<std::string>("text", 't', v.text, "default text", "a text", false, "APP_TEXT");
        p.add_option<double>("ratio", v.ratio, 0.5, "a ratio", false, "APP_RATIO");
        p.add_option<std::vector<int>>("list", 'l', v.list, {1, 2}, "some numbers", false, "APP_LIST");
        p.add_option<std::vector<std::string>>("names", v.names, {}, "some names");
        p.add_flag("loud", 'L', v.loud, "be loud", "APP_LOUD");
        p.add_flag("dry", v.dry, "do nothing");
        p.add_positional<std::string>("input", v.input, "the input");
        p.add_positional<int>("count", v.count, "how many");
    }
    S::parse_result run(const std::vector<std::string>& args)
    {
        std::vector<char*> a;
        a.push_back((char*)"program");
        for (auto& s : args)
            a.push_back((char*)s.c_str());
        return p.parse((int)a.size(), a.data());
    }
};
// What a command line means, in a few lines. good: all of it is understood.
struct expect
{
    bool good = true;
    vars v;
    expect()
    {
        v.number = 5;
        v.text = "default text";
        v.ratio = 0.5;
        v.list = {1, 2};
        v.input = "";
        v.count = 0;
    }
};
struct piece
{
    int kind, value, form;
};
const char* const numbers[] = {"17", "0", "999", "1000", "-4", "", "abc", "99999999999999"};
const char* const texts[] = {"x", "some text that does not fit a small buffer at all", "a=b", "with space"};
const char* const ratios[] = {"0.25", "3", "1e-3", "half"};
const char* const lists[] = {"4,5,6", "7", "8,nine", "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"};

const char* const names[] = {"a,b", "the first name that needs memory of its own,a second name that needs memory too,third", "x", "one name as long as the longest one among all of them"};
const char* const before[][4] = {{"--number=7", "an input", "5", "--nonsense"}, {"an input", "77", "--number=abc", nullptr}, {"--text", nullptr, nullptr, nullptr}, {"only one", nullptr, nullptr, nullptr}, {"an input", "3", "too much", nullptr}, {"--help", nullptr, nullptr, nullptr}, {"an input", "--version", nullptr, nullptr}, {"an input", "12", nullptr, nullptr}};
SCENARIO_FORK(args_faults, "args.faults")
{
    int n = (int)sim::draw(0, 5);
    std::vector<piece> ps;
    for (int i = 0; i < n; i++)
        ps.push_back({(int)sim::draw(0, 9), (int)sim::draw(0, 7), (int)sim::draw(0, 2)});
    int env_number = sim::chance(1, 3) ? (int)sim::draw(0, 7) : -1;
    int env_ratio = sim::chance(1, 4) ? (int)sim::draw(0, 3) : -1;
    int env_list = sim::chance(1, 4) ? (int)sim::draw(0, 3) : -1;
    int env_text = sim::chance(1, 4) ? (int)sim::draw(0, 3) : -1;
    bool env_loud = sim::chance(1, 4);
    bool positionals = sim::chance(3, 4);
    int count_value = sim::chance(1, 6) ? 7 : (int)sim::draw(0, 2);
    int used = sim::chance(1, 2) ? (int)sim::draw(0, 7) : -1;  // another command line before, parsed by the same parser
    bool memory = sim::chance(1, 2);
    if (memory)
    {
        static const i64 rates[] = {3, 6, 15, 50};
        sim::cfg.rate[sim::F_ALLOC_FAIL] = (int)sim::one_of(rates);
    }
    sim::nontrivial();
    sim::run([&] {
        null_buffer nb;
        auto* oldout = std::cout.rdbuf(&nb);
        auto* olderr = std::cerr.rdbuf(&nb);
        expect e;
        auto number = [&](int i) {
            if (i >= 3)
                e.good = false;
            else if (e.good)
                e.v.number = atoi(numbers[i]);
        };
        auto ratio = [&](int i) {
            if (i == 3)
                e.good = false;
            else if (e.good)
                e.v.ratio = strtod(ratios[i], nullptr);
        };
        auto list = [&](int i) {
            if (i == 2)
                e.good = false;
            else if (e.good)
            {
                e.v.list.clear();
                if (i == 0)
                    e.v.list = {4, 5, 6};
                else if (i == 1)
                    e.v.list = {7};
                else
                    for (int k = 1; k <= 20; k++)
                        e.v.list.push_back(k);
            }
        };
        // the environment counts first; what it says last wins, the command line overrides it
        if (env_number >= 0)
        {
            sim::set_env("APP_NUMBER", numbers[env_number]);
            number(env_number);
        }
        if (env_text >= 0)
        {
            sim::set_env("APP_TEXT", texts[env_text]);
            e.v.text = texts[env_text];
        }
        if (env_ratio >= 0)
        {
            sim::set_env("APP_RATIO", ratios[env_ratio]);
            ratio(env_ratio);
        }
        if (env_list >= 0)
        {
            sim::set_env("APP_LIST", lists[env_list]);
            list(env_list);
        }
        if (env_loud)
        {
            sim::set_env("APP_LOUD", "1");
            e.v.loud = true;
        }
        std::vector<std::string> args;
        bool quit = false;
        for (auto& p : ps)
        {
            if (!e.good || quit)
                break;  // what comes after the first mistake is not looked at
            auto add = [&](const char* shrt, const char* lng, const char* val) {
                if (p.form == 0 && shrt)
                    args.push_back(shrt), args.push_back(val);
                else if (p.form == 1 || !*val)
                    args.push_back(lng), args.push_back(val);
                else
                    args.push_back(std::string(lng) + "=" + val);
            };
            switch (p.kind)
            {
            case 0:
                add("-n", "--number", numbers[p.value]);
                number(p.value);
                break;
            case 1:
                add("-t", "--text", texts[p.value % 4]);
                e.v.text = texts[p.value % 4];
                break;
            case 2:
                add(nullptr, "--ratio", ratios[p.value % 4]);
                ratio(p.value % 4);
                break;
            case 3:
                add("-l", "--list", lists[p.value % 4]);
                list(p.value % 4);
                break;
            case 9:
                add(nullptr, "--names", names[p.value % 4]);
                e.v.names.clear();
                for (const char* q = names[p.value % 4];;)
                {
                    const char* c = strchrnul(q, ',');
                    e.v.names.emplace_back(q, c);
                    if (!*c)
                        break;
                    q = c + 1;
                }
                break;
            case 4:
                args.push_back(p.form ? "--loud" : "-L");
                e.v.loud = true;
                break;
            case 5:
                args.push_back("--dry");
                e.v.dry = true;
                break;
            case 6:
                if (p.value < 2)
                {
                    args.push_back("--unknown-option-with-a-long-name=3");
                    e.good = false;
                }
                break;
            case 7:
                if (p.value == 0)
                {
                    args.push_back("--help");
                    quit = true;
                }
                else if (p.value == 1)
                {
                    args.push_back("-v");
                    quit = true;
                }
                break;
            case 8:
                if (p.value == 0)
                {
                    args.push_back("--text");  // without a value
                    e.good = false;
                    quit = false;
                    goto built;
                }
                break;
            }
        }
        if (e.good && !quit)
        {
            if (positionals)
            {
                args.push_back("the input file with a long name");
                e.v.input = args.back();
                args.push_back(numbers[count_value]);
                if (count_value == 7)
                    e.good = false;
                else
                    e.v.count = atoi(numbers[count_value]);
            }
            else
                e.good = false;
        }
    built:
        auto want = !e.good ? S::parse_result::error : quit ? S::parse_result::quit : S::parse_result::success;
        {
            // whatever the library creates lazily
            vars v;
            parser p(v);
            p.run({"--names=a,b", "--list=1,2", "--ratio=2", "x", "y", "--number=zzz"});
            p.run({"--help"});
        }
        size_t blocks = sim::live_blocks();
        for (int round = 0; round < 2; round++)
        {
            vars v;
            parser p(v);
            if (used >= 0)
            {
                // Only what is asked of it now counts. (Options that are not given keep the value they had.)
                std::vector<std::string> old;
                for (auto* a : before[used])
                    if (a)
                        old.push_back(a);
                if (p.run(old) != (used == 7 ? S::parse_result::success : used >= 5 ? S::parse_result::quit : S::parse_result::error) && e.good)
                    sim::fail("C34", "command line %d gave a wrong result", used);
                v.number = 5;
                v.text = "default text";
            }
            i64 f = sim::fault_fired(sim::F_ALLOC_FAIL);
            bool threw = false;
            S::parse_result r = S::parse_result::error;
            if (round == 0)
                sim::set_alloc_faults(memory);
            try
            {
                r = p.run(args);
            }
            catch (const std::bad_alloc&)
            {
                threw = true;
            }
            sim::set_alloc_faults(false);
            bool failed = sim::fault_fired(sim::F_ALLOC_FAIL) != f;
            if (threw && !failed)
                sim::fail("C34", "parse() threw std::bad_alloc although no allocation failed");
            auto name = [](S::parse_result x) { return x == S::parse_result::success ? "success" : x == S::parse_result::quit ? "quit" : "error"; };
            std::string line;
            for (auto& a : args)
                line += " [" + a + "]";
            if (!failed && r != want)
                sim::fail("C34", "the command line%s (APP_NUMBER=%s APP_RATIO=%s APP_LIST=%s) gave %s instead of %s%s", line.c_str(), env_number < 0 ? "" : numbers[env_number], env_ratio < 0 ? "" : ratios[env_ratio], env_list < 0 ? "" : lists[env_list], name(r), name(want), used < 0 ? "" : " (the parser had been used before)");
            if (failed && !threw && r == S::parse_result::success && want != S::parse_result::success)
                sim::fail("C34", "the malformed command line%s was accepted when an allocation failed", line.c_str());
            if (!threw && r == S::parse_result::success && !(v == e.v))
                sim::fail("C34", "the command line%s was accepted%s with %s, it says %s", line.c_str(), failed ? " (an allocation failed)" : "", v.str().c_str(), e.v.str().c_str());
            if (v.number != -1 && (v.number < 0 || v.number >= 1000))
                sim::fail("C34", "the command line%s left a number in place (%d) that its validator refuses", line.c_str(), v.number);
            if (failed && round == 0)
            {
                // the same parser again
                if (p.run(args) != want)
                    sim::fail("C34", "the command line%s gave another result than %s after an attempt that ran out of memory", line.c_str(), name(want));
                if (want == S::parse_result::success && !(v == e.v))
                    sim::fail("C34", "the command line%s was accepted with %s after an attempt that ran out of memory, it says %s", line.c_str(), v.str().c_str(), e.v.str().c_str());
            }
        }
        if (sim::leaked(blocks))
            sim::fail("C34", "a parser leaked %lld blocks", (long long)(sim::live_blocks() - blocks));
        std::cout.rdbuf(oldout);
        std::cerr.rdbuf(olderr);
    });
}
}
