// P29: the test framework - which tests are run, with what attributes, and what is reported - against a model.
#include "pbt.h"
#include "Awl/Testing/UnitTest.h"
#include "Awl/Testing/TestConsole.h"
#include "Awl/Testing/TestMap.h"
#include "Awl/Testing/CommandLineProvider.h"
#include "Awl/StdConsole.h"

#include <algorithm>
#include <chrono>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace t = awl::testing;

namespace
{
    // The standard output goes to a string while it lives.
    struct Capture
    {
        std::ostringstream text;
        std::streambuf* old;
        Capture() : old(std::cout.rdbuf(text.rdbuf())) {}
        ~Capture() { std::cout.rdbuf(old); }
    };

    // "Passed within 00:00:01.23" -> "Passed within *"
    std::vector<std::string> lines(const std::string& text)
    {
        std::vector<std::string> r;
        std::istringstream in(text);
        for (std::string s; std::getline(in, s);)
        {
            const std::string within = "Passed within ";
            auto i = s.find(within);
            if (i != s.npos) s = s.substr(0, i + within.size()) + "*";
            r.push_back(s);
        }
        return r;
    }

    std::string join(const std::vector<std::string>& v)
    {
        std::string r;
        for (auto& s : v) r += s + "\\n";
        return r;
    }

    // What a test does.
    struct Body
    {
        std::string name;
        size_t fail_at = 0;         // the run that fails, 0 - none
        int way = 0;
        std::vector<std::string> text;
        bool reads = false;         // reads attributes
        size_t runs = 0;
    };

    struct Attrs
    {
        int i; unsigned int u; long long ll; unsigned long long ull; bool flag; std::string str; std::vector<int> list; std::set<std::string> set;
        bool operator==(const Attrs&) const = default;
    };

    const Attrs defaults{ -7, 9u, -5, 11u, false, "nothing", { 4, 5 }, { "x", "y" } };

    constexpr size_t N = 10;
    Body bodies[N];
    std::vector<size_t> history;
    std::vector<Attrs> seen;

    void body(size_t index, const t::TestContext& context)
    {
        Body& b = bodies[index];
        ++b.runs;
        history.push_back(index);
        if (b.reads)
        {
            AWT_ATTRIBUTE(int, i_val, defaults.i);
            AWT_ATTRIBUTE(unsigned int, u_val, defaults.u);
            AWT_ATTRIBUTE(long long, ll_val, defaults.ll);
            AWT_ATTRIBUTE(unsigned long long, ull_val, defaults.ull);
            AWT_FLAG(flag_val);
            AWT_ATTRIBUTE(std::string, str_val, defaults.str);
            AWT_ATTRIBUTE(std::vector<int>, list_val, defaults.list);
            AWT_ATTRIBUTE(std::set<std::string>, set_val, defaults.set);
            seen.push_back({ i_val, u_val, ll_val, ull_val, flag_val, str_val, list_val, set_val });
        }
        for (auto& s : b.text) context.out << s << b.runs << std::endl;
        if (b.runs == b.fail_at)
        {
            switch (b.way)
            {
            case 0: throw t::TestException("thrown by " + b.name);
            case 1: t::Assert::Fail("failed in " + b.name);
            case 2: t::Assert::IsTrue(false, "not true");
            case 3: t::Assert::IsFalse(true, "not false");
            case 4: t::Assert::AreEqual(int(b.runs), -1, "not equal");
            default: t::Assert::Throws<t::TestException>([] {});
            }
        }
    }
    template <size_t I> void test(const t::TestContext& context) { body(I, context); }
    template <size_t... I> std::array<t::TestFunc, N> funcs(std::index_sequence<I...>) { return { &test<I>... }; }
    const std::array<t::TestFunc, N> functions = funcs(std::make_index_sequence<N>());

    // A regular expression of a simple kind with a matcher of its own.
    struct Pattern
    {
        struct Item { int kind; std::vector<std::string> words; };   // 0 one of the words, 1 any character, 2 any characters
        std::vector<std::vector<Item>> choices;

        std::string text() const
        {
            std::string r;
            for (size_t c = 0; c < choices.size(); ++c)
            {
                if (c) r += "|";
                for (auto& i : choices[c])
                {
                    if (i.kind == 1) r += ".";
                    else if (i.kind == 2) r += ".*";
                    else if (i.words.size() == 1) r += i.words[0];
                    else
                    {
                        r += "(";
                        for (size_t k = 0; k < i.words.size(); ++k) r += (k ? "|" : "") + i.words[k];
                        r += ")";
                    }
                }
            }
            return r;
        }
        static bool match(const std::vector<Item>& v, size_t n, const std::string& s, size_t at)
        {
            if (n == v.size()) return at == s.size();
            const Item& i = v[n];
            if (i.kind == 1) return at < s.size() && match(v, n + 1, s, at + 1);
            if (i.kind == 2)
            {
                for (size_t k = at; k <= s.size(); ++k) if (match(v, n + 1, s, k)) return true;
                return false;
            }
            for (auto& w : i.words) if (s.compare(at, w.size(), w) == 0 && match(v, n + 1, s, at + w.size())) return true;
            return false;
        }
        bool match(const std::string& s) const
        {
            for (auto& c : choices) if (match(c, 0, s, 0)) return true;
            return false;
        }
    };

    std::string word(pbt::Src& s, size_t max)
    {
        std::string r(1 + s.below(max), 'a');
        for (auto& c : r) c = "abcAB"[s.below(5)];
        return r;
    }
    std::string suffix(pbt::Src& s) { return s.pick<const char*>({ "_Test", "_Test", "_Benchmark", "_Example", "_Test_Unstable" }); }

    Pattern pattern(pbt::Src& s, const std::vector<std::string>& names)
    {
        Pattern p;
        for (size_t c = 1 + (s.chance(1, 4) ? s.below(2) : 0); c; --c)
        {
            std::vector<Pattern::Item> v;
            switch (s.draw(3))
            {
            case 0:
                v.push_back({ 2, {} });
                v.push_back({ 0, { suffix(s) } });
                break;
            case 1:
                // A part of a name.
                if (!names.empty())
                {
                    const std::string& n = names[s.below(names.size())];
                    size_t from = s.flag() ? 0 : s.below(n.size()), to = s.flag() ? n.size() : from + s.below(n.size() - from + 1);
                    if (from || s.chance(1, 4)) v.push_back({ 2, {} });
                    if (to > from) v.push_back({ 0, { n.substr(from, to - from) } });
                    if (to != n.size() && s.chance(3, 4)) v.push_back({ 2, {} });
                    break;
                }
                [[fallthrough]];
            default:
                for (size_t k = 1 + s.below(4); k; --k)
                {
                    switch (s.draw(4))
                    {
                    case 0: v.push_back({ 1, {} }); break;
                    case 1: case 2: v.push_back({ 2, {} }); break;
                    case 3:
                    {
                        Pattern::Item i{ 0, {} };
                        for (size_t w = 1 + s.below(3); w; --w) i.words.push_back(s.chance(1, 3) ? suffix(s) : word(s, 2));
                        v.push_back(i);
                        break;
                    }
                    default: v.push_back({ 0, { suffix(s) } }); break;
                    }
                }
            }
            if (v.empty()) v.push_back({ 1, {} });
            p.choices.push_back(v);
        }
        return p;
    }

    struct Options
    {
        std::vector<std::pair<std::string, std::optional<std::string>>> list;
        const std::optional<std::string>* find(const std::string& name) const
        {
            for (auto& p : list) if (p.first == name) return &p.second;
            return nullptr;
        }
    };

    template <class T>
    T number(const Options& o, const char* name, T def)
    {
        auto v = o.find(name);
        if (!v || !*v || (*v)->empty()) return def;
        // An independent conversion of [-]digits; anything else and what does not fit leaves the default value.
        const std::string& s = **v;
        size_t i = s[0] == '-';
        if (i == s.size()) return def;
        unsigned __int128 n = 0;
        for (; i < s.size(); ++i)
        {
            if (s[i] < '0' || s[i] > '9') return def;
            if (n < (static_cast<unsigned __int128>(1) << 120)) n = n * 10 + (s[i] - '0');
        }
        if (s[0] == '-') return n <= static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + 1 && std::is_signed_v<T> ? static_cast<T>(-static_cast<__int128>(n)) : def;
        return n <= static_cast<unsigned __int128>(std::numeric_limits<T>::max()) ? static_cast<T>(n) : def;
    }

    template <class T>
    std::string number_text(pbt::Src& s)
    {
        switch (s.draw(6))
        {
        case 0: return std::to_string(std::numeric_limits<T>::max());
        case 1: return std::to_string(std::numeric_limits<T>::min());
        case 2: return std::to_string(s.integer<T>());
        case 3: return std::to_string(s.below(100));
        case 4: return std::is_signed_v<T> ? "-" + std::to_string(s.below(100)) : std::to_string(std::numeric_limits<T>::max() / 2 + 1);
        // Too large
        case 5: return std::to_string(std::numeric_limits<T>::max()) + std::to_string(s.below(10));
        default: return s.pick<const char*>({ "abc", "", "x5" });
        }
    }
    template <>
    std::string number_text<std::string>(pbt::Src& s) { return word(s, 5); }

    std::vector<std::string> split(const std::string& v)
    {
        std::istringstream in(v);
        std::vector<std::string> r;
        for (std::string w; in >> w;) r.push_back(w);
        return r;
    }

    // The attributes that a test has to see.
    Attrs expected_attrs(const Options& o)
    {
        Attrs a = defaults;
        a.i = number(o, "i_val", a.i);
        a.u = number(o, "u_val", a.u);
        a.ll = number(o, "ll_val", a.ll);
        a.ull = number(o, "ull_val", a.ull);
        a.flag = o.find("flag_val") != nullptr;
        if (auto v = o.find("str_val")) a.str = v->value_or("");
        if (auto v = o.find("list_val"))
        {
            a.list.clear();
            for (auto& w : split(v->value_or(""))) a.list.push_back(std::stoi(w));
        }
        if (auto v = o.find("set_val"))
        {
            auto w = split(v->value_or(""));
            a.set = std::set<std::string>(w.begin(), w.end());
        }
        return a;
    }
}

PBT_PROPERTY(test_runs, 24000, 500000)
{
    // The tests.
    t::Shutdown();
    history.clear();
    seen.clear();
    std::vector<std::unique_ptr<t::TestLink>> links;
    struct Clean { std::vector<std::unique_ptr<t::TestLink>>& l; ~Clean() { t::Shutdown(); l.clear(); } } clean{ links };
    const size_t count = s.below(N + 1);
    std::vector<std::string> names;
    bool duplicate = false;
    for (size_t i = 0; i < count; ++i)
    {
        Body& b = bodies[i];
        b = Body{};
        b.name = word(s, 4) + suffix(s);
        while (std::count(names.begin(), names.end(), b.name)) b.name = std::string(1, 'a') + b.name;
        if (i && s.chance(1, 150)) { b.name = names[0]; duplicate = true; }
        if (s.chance(1, 6)) b.fail_at = 1 + s.below(3);
        b.way = static_cast<int>(s.draw(5));
        b.reads = s.flag();
        for (size_t k = s.below(3); k; --k) b.text.push_back("<" + word(s, 3) + ">");
        names.push_back(b.name);
        s.note(b.name, b.fail_at ? pbt::str(" fails in run ", b.fail_at) : "", b.text.empty() ? "" : " prints", b.reads ? " reads" : "");
    }
    for (size_t i = 0; i < count; ++i) links.push_back(std::make_unique<t::TestLink>(bodies[i].name.c_str(), functions[i]));

    // The options.
    Options o;
    auto add = [&](const char* name, std::optional<std::string> v) { o.list.push_back({ name, v }); };
    std::optional<Pattern> filter;
    bool bad_filter = false, empty_filter = false;
    if (s.flag())
    {
        switch (s.below(24))
        {
        case 0: bad_filter = true; add("filter", s.flag() ? "(ab" : "a[b"); break;
        case 1: empty_filter = true; add("filter", s.flag() ? std::optional<std::string>("") : std::nullopt); break;
        default: filter = pattern(s, names); add("filter", filter->text()); break;
        }
    }
    std::set<std::string> run;
    if (s.chance(1, 4))
    {
        std::string v;
        for (size_t k = s.below(5); k; --k)
        {
            std::string n = names.empty() || s.chance(1, 8) ? word(s, 3) : names[s.below(names.size())];
            run.insert(n);
            v += (v.empty() ? "" : " ") + n;
        }
        add("run", v.empty() && s.flag() ? std::nullopt : std::optional<std::string>(v));
    }
    if (s.chance(1, 3)) add("loop", s.chance(1, 6) ? std::optional<std::string>(s.flag() ? "x" : "") : s.chance(1, 10) ? std::nullopt : std::optional<std::string>(std::to_string(s.below(4))));
    if (s.chance(1, 2)) add("output", s.chance(1, 20) ? std::optional<std::string>(s.flag() ? "none" : "") : std::optional<std::string>(s.pick<const char*>({ "all", "failed", "null" })));
    if (s.chance(1, 6)) add("timeout", s.pick<const char*>({ "600000", "-1", "-10", "x" }));
    if (s.chance(1, 6)) add("list", s.chance(1, 3) ? std::optional<std::string>("yes") : std::nullopt);
    if (s.chance(1, 3)) add("i_val", number_text<int>(s));
    if (s.chance(1, 3)) add("u_val", number_text<unsigned int>(s));
    if (s.chance(1, 3)) add("ll_val", number_text<long long>(s));
    if (s.chance(1, 3)) add("ull_val", number_text<unsigned long long>(s));
    if (s.chance(1, 3)) add("flag_val", s.chance(1, 3) ? std::optional<std::string>(s.pick<const char*>({ "1", "yes" })) : std::nullopt);
    if (s.chance(1, 3)) add("str_val", s.chance(1, 3) ? std::nullopt : std::optional<std::string>(s.flag() ? word(s, 5) : "two words -x"));
    if (s.chance(1, 3))
    {
        std::string v;
        for (size_t k = s.below(4); k; --k) v += std::to_string(s.integer<int>()) + (s.flag() ? " " : "  ");
        add("list_val", v);
    }
    if (s.chance(1, 3)) { std::string v; for (size_t k = s.below(4); k; --k) v += word(s, 2) + " "; add("set_val", v); }
    if (s.chance(1, 3)) add("extra_option1", std::nullopt);
    if (s.chance(1, 6)) add("other", "5");
    s.shuffle(o.list);
    bool broken = false;
    std::vector<std::string> args{ "program" };
    if (s.chance(1, 60)) { args.push_back("value"); broken = true; }
    for (auto& p : o.list)
    {
        args.push_back("--" + p.first);
        if (p.second) args.push_back(*p.second);
    }
    if (!o.list.empty() && s.chance(1, 60)) { args.push_back("--" + o.list[s.below(o.list.size())].first); broken = true; }
    else if (!o.list.empty() && o.list.back().second && s.chance(1, 60)) { args.push_back("-x"); broken = true; }
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    { std::string c; for (auto& a : args) c += " '" + a + "'"; s.note("arguments:", c); }

    // The model.
    std::vector<size_t> order;
    std::set<std::string> used;
    std::vector<std::string> out;
    int result = -1;
    std::string line;
    size_t ran = 0, attrs = 0;
    auto filtered = [&](const std::string& n) { return empty_filter ? true : filter ? filter->match(n) : n.size() >= 5 && n.compare(n.size() - 5, 5, "_Test") == 0; };
    std::vector<size_t> sorted;
    for (size_t i = 0; i < count; ++i) sorted.push_back(i);
    std::sort(sorted.begin(), sorted.end(), [](size_t a, size_t b) { return bodies[a].name < bodies[b].name; });
    bool message_matters = true;
    if (!broken)
    {
        used.insert("list");
        const bool list = o.find("list") != nullptr;
        auto end_line = [&](const std::string& x) { out.push_back(line + x); line.clear(); };
        if (duplicate)
        {
            result = 2;
            message_matters = false;
        }
        else if (list)
        {
            used.insert("filter");
            if (bad_filter && count) { result = 2; message_matters = false; }
            else
            {
                // Without a filter all the tests are listed.
                size_t n = 0;
                for (size_t i : sorted) if ((!filter && !empty_filter) || filtered(bodies[i].name)) { end_line(bodies[i].name); ++n; }
                end_line(pbt::str("Total ", n, " tests."));
                result = 0;
            }
        }
        else
        {
            used.insert("run");
            std::vector<size_t> chosen;
            bool unknown = false, refused = false;
            end_line("");
            if (run.empty())
            {
                used.insert("filter");
                if (bad_filter && count) { refused = true; message_matters = false; }
                else for (size_t i : sorted) if (filtered(bodies[i].name)) chosen.push_back(i);
                if (!refused) end_line(pbt::str("***************** Running ", chosen.size(), " tests *****************"));
            }
            else
            {
                end_line(pbt::str("***************** Running ", run.size(), " tests *****************"));
                for (auto& n : run)
                {
                    auto i = std::find(names.begin(), names.end(), n);
                    if (i == names.end()) { unknown = true; break; }
                    chosen.push_back(static_cast<size_t>(i - names.begin()));
                }
            }
            bool failed = refused;
            std::string last;
            const size_t loop = number<size_t>(o, "loop", 0);
            const std::string mode = o.find("output") ? o.find("output")->value_or("") : "failed";
            const bool bad_mode = mode != "all" && mode != "failed" && mode != "null";
            std::vector<std::string> buffered;
            for (size_t c = 0; c < chosen.size() && !failed; ++c)
            {
                Body& b = bodies[chosen[c]];
                for (auto n : { "output", "loop", "timeout" }) used.insert(n);
                line = b.name;
                if (loop) line += pbt::str(" Looping ", loop, " times.");
                line += "... ";
                if (bad_mode) { failed = true; break; }
                if (mode == "all") end_line("");
                for (size_t k = 1; k <= std::max<size_t>(loop, 1) && !failed; ++k)
                {
                    order.push_back(chosen[c]);
                    ++ran;
                    if (b.reads) { ++attrs; for (auto n : { "i_val", "u_val", "ll_val", "ull_val", "flag_val", "str_val", "list_val", "set_val" }) used.insert(n); }
                    buffered.clear();
                    for (auto& x : b.text) { std::string y = pbt::str(x, k); if (mode == "all") end_line(y); else if (mode == "failed") buffered.push_back(y); }
                    if (k == b.fail_at) failed = true;
                    else end_line("\tPassed within *");
                    if (!failed) buffered.clear();
                }
            }
            if (!failed && unknown) { failed = true; buffered.clear(); }
            if (failed)
            {
                end_line("");
                for (auto& x : buffered) end_line(x);
                end_line("");
                end_line("***************** The tests failed: ");
            }
            else { end_line(""); end_line("***************** The tests passed *****************"); }
            result = failed ? 1 : 0;
        }
    }
    // The options that nobody asked for.
    std::set<std::string> unused;
    for (auto& p : o.list) if (!used.count(p.first)) unused.insert("Unused option '" + p.first + "'");

    // The run.
    for (size_t i = 0; i < count; ++i) bodies[i].runs = 0;
    int r = -2;
    bool thrown = false;
    std::string text;
    {
        Capture c;
        try { r = t::Run(static_cast<int>(args.size()), argv.data()); }
        catch (const t::TestException&) { thrown = true; }
        text = c.text.str();
    }

    PBT_CHECK(thrown == broken, thrown ? "a right command line was refused" : "a wrong command line was accepted");
    if (broken) { PBT_CHECK(history.empty(), "a test was run with a wrong command line"); s.label("wrong command line"); return; }
    std::string h, e;
    for (size_t i : history) h += bodies[i].name + " ";
    for (size_t i : order) e += bodies[i].name + " ";
    PBT_CHECK(history == order, "these tests were run: ", h, "; expected: ", e);
    PBT_CHECK(seen.size() == attrs, "attributes were read ", seen.size(), " times");
    const Attrs a = expected_attrs(o);
    for (auto& x : seen)
    {
        PBT_CHECK(x.i == a.i, "int: ", x.i, " instead of ", a.i);
        PBT_CHECK(x.u == a.u, "unsigned: ", x.u, " instead of ", a.u);
        PBT_CHECK(x.ll == a.ll, "long long: ", x.ll, " instead of ", a.ll);
        PBT_CHECK(x.ull == a.ull, "unsigned long long: ", x.ull, " instead of ", a.ull);
        PBT_CHECK(x.str == a.str, "string: '", x.str, "' instead of '", a.str, "'");
        PBT_CHECK(x == a, "a flag or a collection is wrong");
    }
    PBT_CHECK(r == result, "the result is ", r, " instead of ", result);

    // The text, without the message of the failure and with the unused options in any order.
    std::vector<std::string> got = lines(text);
    std::multiset<std::string> left;
    while (!got.empty() && got.back().rfind("Unused option '", 0) == 0) { left.insert(got.back()); got.pop_back(); }
    PBT_CHECK(std::set<std::string>(left.begin(), left.end()) == unused && left.size() == unused.size(), "the unused options are reported wrong: ", left.size(), " instead of ", unused.size());
    if (message_matters)
    {
        const std::string fail = "***************** The tests failed: ";
        if (!got.empty() && got.back().rfind(fail, 0) == 0)
        {
            if (!history.empty() && bodies[history.back()].runs == bodies[history.back()].fail_at && bodies[history.back()].way < 2)
                PBT_CHECK(got.back().find(bodies[history.back()].name) != std::string::npos, "the message of the failure is lost: ", got.back());
            got.back() = fail;
        }
        PBT_CHECK(got == out, "the output is ", join(got), " instead of ", join(out));
    }
    if (ran >= 2 && o.list.size() >= 2) s.nontrivial();
    s.label(result == 0 ? "passed" : result == 1 ? "failed" : "refused");
}

// Assertions fail exactly when the condition does not hold.
PBT_PROPERTY(assertions, 20000, 300000)
{
    auto fails = [](auto f) { try { f(); } catch (const t::TestException&) { return true; } return false; };
    for (size_t k = 1 + s.length(12); k; --k)
    {
        const int a = static_cast<int>(s.below(3)), b = static_cast<int>(s.below(3));
        s.note("assert about ", a, " and ", b);
        switch (s.draw(4))
        {
        case 0: PBT_CHECK(fails([&] { AWT_ASSERT(a == b); }) == (a != b), "AWT_ASSERT"); break;
        case 1: PBT_CHECK(fails([&] { AWT_ASSERT_FALSE(a == b); }) == (a == b), "AWT_ASSERT_FALSE"); break;
        case 2:
        {
            bool shown = true;
            try { AWT_ASSERT_EQUAL(a, b); PBT_CHECK(a == b, "AWT_ASSERT_EQUAL did not fail"); }
            catch (const t::TestException& e) { PBT_CHECK(a != b, "AWT_ASSERT_EQUAL failed"); shown = e.What().find(std::to_string(a)) != std::string::npos && e.What().find(std::to_string(b)) != std::string::npos; }
            PBT_CHECK(shown, "the values are not shown");
            break;
        }
        case 3: PBT_CHECK(fails([&] { AWT_FAILM(message); }), "AWT_FAILM"); break;
        default:
        {
            // What is thrown: nothing, the expected type, one derived from it, another one.
            struct Base {}; struct Derived : Base {}; struct Other {};
            auto thrower = [](int what) { return [what] { if (what == 1) throw Base(); if (what == 2) throw Derived(); if (what == 3) throw t::TestException("x"); if (what == 4) throw awl::GeneralException("y"); if (what == 5) throw std::runtime_error("z"); }; };
            const int what = static_cast<int>(s.draw(5));
            enum { Passes, Fails, Passed_on };
            auto outcome = [&](auto type) -> int
            {
                using E = typename decltype(type)::type;
                try { t::Assert::Throws<E>(thrower(what)); return Passes; }
                catch (const t::TestException& e) { return e.What() == "x" ? Passed_on : Fails; }
                catch (...) { return Passed_on; }
            };
            auto check = [&](auto type, std::set<int> matching, const char* name)
            {
                const int expected = what == 0 ? int(Fails) : matching.count(what) ? int(Passes) : int(Passed_on);
                PBT_CHECK(outcome(type) == expected, "Throws<", name, "> with ", what);
            };
            switch (s.draw(5))
            {
            case 0: check(std::type_identity<Base>(), { 1, 2 }, "Base"); break;
            case 1: check(std::type_identity<Derived>(), { 2 }, "Derived"); break;
            case 2: check(std::type_identity<t::TestException>(), { 3 }, "TestException"); break;
            case 3: check(std::type_identity<awl::Exception>(), { 3, 4 }, "awl::Exception"); break;
            case 4: check(std::type_identity<std::exception>(), { 3, 4, 5 }, "std::exception"); break;
            default: check(std::type_identity<Other>(), {}, "Other"); break;
            }
            break;
        }
        }
    }
    s.nontrivial();
}

namespace
{
    template <class T>
    void round_trip(pbt::Src& s, const char* name)
    {
        using F = t::Formatter<T>;
        std::vector<T> v;
        for (size_t k = 1 + s.length(8); k; --k)
        {
            T x = s.integer<T>();
            if (s.chance(1, 4)) x = s.flag() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
            v.push_back(x);
            const std::string text = F::ToString(x);
            PBT_CHECK(text == std::to_string(x), name, ": ", text);
            PBT_CHECK(F::FromString(text) == x, name, ": '", text, "' is read as ", F::FromString(text));
        }
        using V = t::Formatter<std::vector<T>>;
        std::string text;
        for (size_t i = 0; i < v.size(); ++i) text += (i ? " " : "") + std::to_string(v[i]);
        PBT_CHECK(V::ToString(v) == text, name, ": ", V::ToString(v), " instead of ", text);
        PBT_CHECK(V::FromString(text) == v, name, ": a list is read wrong: ", text);
        using S = t::Formatter<std::set<T>>;
        std::set<T> set(v.begin(), v.end());
        PBT_CHECK(S::FromString(S::ToString(set)) == set, name, ": a set is read wrong");
    }
}

PBT_PROPERTY(formatters, 20000, 300000)
{
    switch (s.draw(5))
    {
    case 0: round_trip<int>(s, "int"); break;
    case 1: round_trip<unsigned int>(s, "unsigned int"); break;
    case 2: round_trip<long>(s, "long"); break;
    case 3: round_trip<unsigned long>(s, "unsigned long"); break;
    case 4: round_trip<long long>(s, "long long"); break;
    default: round_trip<unsigned long long>(s, "unsigned long long"); break;
    }
    // Attributes that are made by hand.
    struct Provider : t::AttributeProvider
    {
        std::map<std::string, std::string> m;
        bool TryFind(const awl::String& n, awl::String& v) const override { auto i = m.find(n); if (i == m.end()) return false; v = i->second; return true; }
    } p;
    if (s.flag()) p.m["alpha"] = number_text<int>(s);
    const int def = static_cast<int>(s.below(50));
    t::LocalAttribute<int> a(p, "int", "alpha", def);
    Options o;
    for (auto& x : p.m) o.list.push_back({ x.first, x.second });
    PBT_CHECK(a.GetValue() == number<int>(o, "alpha", def), "the value of an attribute is ", a.GetValue());
    PBT_CHECK(a.GetDefaultValue() == std::to_string(def), "the default value of an attribute is ", a.GetDefaultValue(), " instead of ", def);
    PBT_CHECK(std::string(a.GetName()) == "alpha" && a.GetTypeName() == "int", "the name of an attribute");
    s.nontrivial();
}

namespace
{
    // A test that goes on until it is asked to stop, in the runs that are chosen.
    struct Patient { std::set<size_t> waits; size_t runs = 0; std::vector<bool> asked; } patient;

    void wait_for_stop(const t::TestContext& context)
    {
        const size_t run = ++patient.runs;
        if (patient.waits.count(run))
        {
            const auto until = std::chrono::steady_clock::now() + std::chrono::seconds(60);
            while (!context.stopToken.stop_requested() && std::chrono::steady_clock::now() < until) std::this_thread::sleep_for(std::chrono::microseconds(100));
        }
        patient.asked.push_back(context.stopToken.stop_requested());
        context.out << "end" << run << std::endl;
    }
}

// A test that does not end in time is asked to stop, and it is reported; one that does, is not.
PBT_PROPERTY(timeouts, 400, 6000)
{
    t::Shutdown();
    patient = Patient{};
    const size_t loop = s.draw(4), runs = loop ? loop : 1;
    enum { None, Short, Long };
    const int kind = static_cast<int>(s.draw(2));
    const std::string timeout = std::to_string(kind == Short ? 1 + s.draw(4) : 600000 + s.draw(1000));
    // Without a timeout, nobody would stop it.
    if (kind == Short) for (size_t i = 1; i <= runs; ++i) patient.waits.insert(i);
    const int output = static_cast<int>(s.draw(2));
    const char* const outputs[] = { "all", "failed", "null" };
    std::vector<std::string> args{ "program", "--output", outputs[output] };
    if (loop) { args.push_back("--loop"); args.push_back(std::to_string(loop)); }
    if (kind != None) { args.push_back("--timeout"); args.push_back(timeout); }
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    s.note(kind == None ? "no timeout" : "timeout " + timeout, ", ", runs, " runs, ", patient.waits.size(), " wait, output ", outputs[output]);

    int r = -2;
    std::string text;
    {
        t::TestLink link("Patient_Test", &wait_for_stop);
        struct Clean { ~Clean() { t::Shutdown(); } } clean;
        Capture c;
        r = t::Run(static_cast<int>(argv.size()), argv.data());
        text = c.text.str();
    }
    PBT_CHECK(r == 0, "the result is ", r);
    PBT_CHECK(patient.runs == runs, patient.runs, " runs instead of ", runs);
    size_t elapsed = 0, passed = 0, from = 0;
    std::vector<size_t> order;
    const std::string has = "has elapsed, requesting the test to stop...", within = "Passed within ";
    for (;;)
    {
        const size_t a = text.find(has, from), b = text.find(within, from);
        if (a == text.npos && b == text.npos) break;
        if (a < b) { ++elapsed; from = a + has.size(); } else { ++passed; order.push_back(elapsed); from = b + within.size(); }
    }
    PBT_CHECK(passed == runs, "it is reported that ", passed, " runs passed, of ", runs, ": ", text);
    for (size_t i = 1; i <= runs; ++i)
    {
        if (patient.waits.count(i)) PBT_CHECK(patient.asked[i - 1], "the run ", i, " was not asked to stop when its time was over");
        else if (kind != Short) PBT_CHECK(!patient.asked[i - 1], "the run ", i, " was asked to stop before its time was over");
        PBT_CHECK(order[i - 1] == (kind == Short ? i : 0), "before the end of the run ", i, ", ", order[i - 1], " timeouts were reported: ", text);
        const bool shown = text.find(pbt::str("end", i)) != text.npos;
        PBT_CHECK(shown == (output == 0), "the output of the run ", i, shown ? " is shown" : " is not shown");
    }
    if (!patient.waits.empty() && runs > 1) s.nontrivial();
    s.label(kind == None ? "no timeout" : kind == Short ? "short timeout" : "long timeout");
}
