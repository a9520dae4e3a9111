// C13: exceptions.  Built with exception catching on (asan, relx) and off (rel, asanx0).
#include "model.h"
#include "tracked.h"

static constexpr bool catches = COIL_CONFIG_CATCH_EXCEPTIONS;

namespace
{
    // a type which throws at every place where the library runs user code
    struct Bomb
    {
        std::string payload;
        vh::Tracked t{1};
    };
    model::Thrown pending; // thrown by the site named in `site`
    int site = 0;
    enum Site
    {
        None,
        FromString,
        ToString,
        Getter,
        Setter,
        Body,
        Method,
        TypeCopy, // the n-th copy (or move) of a parameter throws Boom
        InVector,
        InOptional,
        NamedArg,
        TwoDeep,
        Sites
    };
    int fired = 0;
    long elements = -1; // InVector: which element throws
    void maybe(int s)
    {
        if (site == s)
        {
            fired++;
            model::throwNow(pending);
        }
    }
}
COIL_CREATE_TYPE_NAME(Bomb, "Bomb");
namespace coil
{
    template<>
    struct TypeSerializer<Bomb>
    {
        static Expected<Bomb, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 1)
                return errors::createMismatchedSubvaluesError<Bomb>(input, 1);
            maybe(FromString);
            if (elements >= 0 && elements-- == 0)
            {
                maybe(InVector);
                maybe(InOptional);
                maybe(NamedArg);
            }
            if (input.subvalues[0] == "bad")
                return errors::createGenericError<Bomb>(input);
            Bomb b;
            b.payload = ss(input.subvalues[0]);
            return b;
        }
        static String toString(Bomb const& b)
        {
            maybe(ToString);
            return cs(b.payload);
        }
    };
}

namespace
{
    struct Holder
    {
        Bomb value;
        int other = 1;
        Bomb const& get() const
        {
            maybe(Getter);
            return value;
        }
        void set(Bomb const& b)
        {
            maybe(Setter);
            value.payload = b.payload;
        }
        Bomb method(coil::Context ctx, Bomb const& a, int) const
        {
            ctx.log("in method");
            maybe(Method);
            return a;
        }
    };

    struct Outcome
    {
        bool threw = false;
        model::Thrown t;
        bool boom = false;
        coil::ExecutionResult r;
    };
    Outcome run(coil::Bindings& b, std::string const& text)
    {
        Outcome o;
        ref::Exact e(text);
        try
        {
            auto r = b.execute(cv(e));
            r.input = coil::ExecutionInput(); // its views end with the text
            o.r = coil::move(r);
        }
        catch (vh::Boom const&)
        {
            o.threw = o.boom = true;
        }
        catch (...)
        {
            o.threw = true;
            o.t = model::describeCurrent();
        }
        return o;
    }

    void sites(vh::Gen& g)
    {
        long before = static_cast<long>(vh::inst().live.size());
        {
            coil::Bindings b;
            Holder h;
            Bomb var;
            var.payload = "var";
            vh::Tracked inClosure(77);
            b["body"] = [inClosure](coil::Context ctx, Bomb const& x) {
                ctx.logline("start");
                inClosure.check();
                x.t.check();
                maybe(Body);
                return x;
            };
            b["byvalue"] = [](Bomb a, Bomb c) {
                a.t.check();
                c.t.check();
                maybe(Body);
                return c;
            };
            b["pointer"] = [&h](Bomb const&) -> Bomb const* {
                maybe(Body);
                return &h.value;
            };
            b["vec"] = [](std::vector<Bomb> v, int) { return v; };
            b["opt"] = [](std::optional<Bomb> v) { return v; };
            b["vecopt"] = [](coil::Context ctx, std::vector<std::optional<Bomb>> const& v) {
                ctx.log("in");
                return v;
            };
            b["named"] = [](coil::Context ctx) {
                ctx.log("before");
                auto x = ctx.namedArgs().get<Bomb>("k");
                ctx.log("between");
                auto y = ctx.namedArgs().getOrReport<Bomb>("k", coil::NamedArgs::ArgType::Required);
                ctx.log("after");
                return y ? y->payload.size() + x->payload.size() : 0;
            };
            b["var"] = coil::variable(&var);
            b["prop"] = coil::property([&h]() -> Bomb const& { return h.get(); }, [&h](Bomb const& x) { h.set(x); });
            b["ro"] = coil::property([&h]() { return h.get(); });
            b["bprop"] = coil::bindProperty(&Holder::get, &Holder::set, &h);
            b["bro"] = coil::bindProperty(&Holder::get, &h);
            b["method"] = coil::bind(&Holder::method, &h);
            b["over"] = coil::overloaded([](coil::Context ctx) { ctx.reportError("none"); }, [inClosure](coil::Context ctx, Bomb x) { inClosure.check(); ctx.reportErrors("one", "two"); ctx.log("over"); maybe(Body); return x; });
            b["ok"] = [](int a, std::string const& s) { return s + std::to_string(a); };

            struct Probe
            {
                char const* text;
                int site;
                char const* out;      // logged before the exception
                int errors;           // reported before the exception
                char const* fine;     // the return value without an exception; nullptr: none
                int fineErrors = 0;
                char const* fineOut = "";
                long element = -1;
            };
            static Probe const probes[] = {
                {"body x", FromString, "", 0, "x", 0, "start\n"},
                {"body x", Body, "start\n", 0, "x", 0, "start\n"},
                {"body x", ToString, "start\n", 0, "x", 0, "start\n"},
                {"byvalue a c", FromString, "", 0, "c"},
                {"byvalue a c", Body, "", 0, "c"},
                {"byvalue a c", ToString, "", 0, "c"},
                {"pointer a", FromString, "", 0, "held"},
                {"pointer a", Body, "", 0, "held"},
                {"pointer a", ToString, "", 0, "held"},
                {"vec (a,b,c) 1", InVector, "", 0, "[a, b, c]", 0, "", 2},
                {"vec (a,b,c) 1", InVector, "", 0, "[a, b, c]", 0, "", 1},
                {"vec (a,b,c) 1", InVector, "", 0, "[a, b, c]", 0, "", 0},
                {"vec (a,b,c) 1", ToString, "", 0, "[a, b, c]"},
                {"vec (a) 1", FromString, "", 0, "[a]"},
                {"opt a", InOptional, "", 0, "a", 0, "", 0},
                {"opt a", ToString, "", 0, "a"},
                {"opt ''", FromString, nullptr, 0, ""}, // not reached
                {"vecopt (a,'',b,c)", InVector, "", 0, "[a, , b, c]", 0, "in", 2},
                {"vecopt (a,'',b,c)", ToString, "in", 0, "[a, , b, c]", 0, "in"},
                {"named k=ab", FromString, "before", 0, "4", 0, "beforebetweenafter"},
                {"named k=ab", NamedArg, "beforebetween", 0, "4", 0, "beforebetweenafter", 1},
                {"var", ToString, "", 0, "var"},
                {"var new", FromString, "", 0, "new"},
                {"var new", ToString, "", 0, "new"},
                {"prop", Getter, "", 0, "held"},
                {"prop", ToString, "", 0, "held"},
                {"prop x", FromString, "", 0, "x"},
                {"prop x", Setter, "", 0, "x"},
                {"prop x", Getter, "", 0, "x"},
                {"prop x", ToString, "", 0, "x"},
                {"ro", Getter, "", 0, "held"},
                {"ro x", Getter, "", 1, nullptr, 1},
                {"ro x", ToString, "", 1, nullptr, 1},
                {"bprop", Getter, "", 0, "held"},
                {"bprop x", Setter, "", 0, "x"},
                {"bprop x", Getter, "", 0, "x"},
                {"bprop x", ToString, "", 0, "x"},
                {"bro", Getter, "", 0, "held"},
                {"bro x", Getter, "", 1, nullptr, 1},
                {"bro x", FromString, "", 0, nullptr, 1},
                {"method m 1", Method, "in method", 0, "m", 0, "in method"},
                {"method m 1", FromString, "", 0, "m", 0, "in method"},
                {"method m 1", ToString, "in method", 0, "m", 0, "in method"},
                {"over x", Body, "over", 2, nullptr, 2, "over"},
                {"over x", ToString, "over", 2, nullptr, 2, "over"},
                {"over x", FromString, "", 0, nullptr, 2, "over"},
            };
            for (int i = 0; i < 12; i++)
            {
                h.value.payload = "held";
                var.payload = "var";
                Probe const& p = g.pick(probes);
                long liveBefore = static_cast<long>(vh::inst().live.size());
                bool bomb = !g.chance(1, 5);
                bool copies = g.chance(1, 4); // instead: the n-th copy or move of an object throws
                pending.kind = static_cast<int>(1 + g.below(model::throwKinds));
                pending.what = (g.coin() ? "100% %s %n " : "") + ref::anyText(g, g.chance(1, 10) ? 800 : 30);
                model::Thrown expect = pending;
                expect.what = pending.kind <= 5 ? std::string(pending.what.c_str()) : pending.kind == 8 ? pending.what : "";
                fired = 0;
                Outcome o;
                std::string what = std::string("\"") + p.text + "\" throwing in site " + std::to_string(p.site) + " kind " + std::to_string(pending.kind);
                vh::st().note = what.c_str();
                if (copies)
                {
                    vh::inst().throwOnMove = g.coin();
                    vh::inst().throwIn = static_cast<long>(g.below(12));
                    what = std::string("\"") + p.text + "\" with a throwing " + (vh::inst().throwOnMove ? "move" : "copy") + " number " + std::to_string(vh::inst().throwIn);
                    vh::st().note = what.c_str();
                    o = run(b, p.text);
                    bool happened = vh::inst().throwIn < 0;
                    vh::inst().throwIn = -1;
                    if (happened)
                    {
                        vh::count("copies-thrown");
                        if (catches)
                            VH_CHECK(!o.threw && !o.r.errors.empty() && sv(o.r.errors[o.r.errors.size() - 1]) == "Exception caught during execution" && !o.r.returnValue, "caught", "%s: %s", what.c_str(), vh::esc(show(o.r)).c_str());
                        else
                            VH_CHECK(o.threw && o.boom, "propagated", "%s: nothing (or something else) was thrown", what.c_str());
                    }
                    else
                        VH_CHECK(!o.threw, "spurious", "%s: something was thrown", what.c_str());
                    vh::observe(vh::hashStr(what));
                }
                else
                {
                    if (bomb)
                        site = p.site, elements = p.element;
                    o = run(b, p.text);
                    site = 0;
                    elements = -1;
                    bool happens = bomb && p.out != nullptr;
                    // return values are only converted if nothing was reported?  Left open: the conversion may or may not run.
                    if (bomb && p.site == ToString && p.errors > 0 && !fired)
                        happens = false;
                    vh::observe(vh::hashStr(what + (bomb ? expect.what : "-")));
                    VH_CHECK((fired > 0) == happens, "not-reached", "%s: the throwing site ran %d times", what.c_str(), fired);
                    if (!happens)
                    {
                        vh::count("completed");
                        bool ok = !o.threw && o.r.returnValue.hasValue() == (p.fine != nullptr) && (!p.fine || sv(*o.r.returnValue) == p.fine) && o.r.errors.size() == static_cast<size_t>(p.fineErrors) && sv(o.r.output) == p.fineOut;
                        VH_CHECK(ok, "result", "%s (not throwing): %s", what.c_str(), vh::esc(show(o.r)).c_str());
                    }
                    else
                    {
                        vh::count("thrown");
                        vh::count(pending.kind <= 5 ? "std-exceptions" : "other-exceptions");
                        VH_CHECK(fired == 1, "fired-twice", "%s: went on after the exception", what.c_str());
                        if (catches)
                        {
                            VH_CHECK(!o.threw, "escaped", "%s: the exception escaped", what.c_str());
                            std::string msg = pending.kind <= 5 ? "Exception caught during execution: " + expect.what : "Exception caught during execution";
                            bool ok = !o.r.returnValue && sv(o.r.output) == p.out && o.r.errors.size() == static_cast<size_t>(p.errors) + 1 && sv(o.r.errors[o.r.errors.size() - 1]) == msg;
                            VH_CHECK(ok, "caught", "%s: %s, should end with \"%s\" after %d errors and output \"%s\"", what.c_str(), vh::esc(show(o.r)).c_str(), vh::esc(msg).c_str(), p.errors, vh::esc(p.out).c_str());
                        }
                        else
                        {
                            VH_CHECK(o.threw && !o.boom, "swallowed", "%s: no exception reached the caller, %s", what.c_str(), vh::esc(show(o.r)).c_str());
                            VH_CHECK(o.t.kind == expect.kind && o.t.what == expect.what, "changed", "%s: the caller got kind %d \"%s\", should get \"%s\"", what.c_str(), o.t.kind, vh::esc(o.t.what).c_str(), vh::esc(expect.what).c_str());
                        }
                    }
                }
                o.r = coil::ExecutionResult();
                VH_CHECK(static_cast<long>(vh::inst().live.size()) == liveBefore, "leaked-objects", "%s: %ld objects, %ld before", what.c_str(), static_cast<long>(vh::inst().live.size()), liveBefore);
                // everything keeps working
                std::string s = ref::word(g, 6, false);
                auto fine = b.execute("ok 5 text");
                VH_CHECK(fine.errors.empty() && fine.returnValue && sv(*fine.returnValue) == "text5" && sv(fine.output).empty(), "broken-afterwards", "after %s: %s", what.c_str(), vh::esc(show(fine)).c_str());
                h.value.payload = "held";
                var.payload = "var";
                auto again = run(b, p.text);
                bool ok = !again.threw && again.r.returnValue.hasValue() == (p.fine != nullptr) && (!p.fine || sv(*again.r.returnValue) == p.fine) && again.r.errors.size() == static_cast<size_t>(p.fineErrors) && sv(again.r.output) == p.fineOut;
                VH_CHECK(ok, "broken-afterwards", "after %s, the same again gives %s", what.c_str(), again.threw ? "an exception" : vh::esc(show(again.r)).c_str());
            }
        }
        VH_CHECK(static_cast<long>(vh::inst().live.size()) == before, "leaked-objects", "%ld objects are left", static_cast<long>(vh::inst().live.size()) - before);
    }

    // an allocation fails while a command logs, reports or returns: what had been logged and reported stays
    struct LogStep
    {
        int kind;
        coil::String text;
        std::string plain;
    };
    void outOfMemory(vh::Gen& g)
    {
        coil::Bindings b;
        std::vector<LogStep> steps;
        long failAt = -1;
        bool guarded = false;
        std::string done; // the texts of the completed steps
        std::string current;
        std::vector<std::string> errors, currentErrors;
        bool caughtInside = false;
        auto command = [&](coil::Context ctx) -> coil::String {
            coil::String result = "the value which the command returns";
            vh::ledger().failArmed = true;
            vh::ledger().failAt = failAt;
            for (auto& s : steps)
            {
                // the monitor's own bookkeeping never fails
                vh::ledger().failArmed = false;
                current.clear();
                currentErrors.clear();
                switch (s.kind)
                {
                case 0:
                case 1:
                case 4:
                    current = s.plain;
                    break;
                case 2:
                case 3:
                case 5:
                    current = s.plain + "\n";
                    break;
                case 6:
                case 7:
                    currentErrors.push_back(s.plain);
                    break;
                default:
                    currentErrors = {s.plain, "second %s", s.plain};
                }
                char const* c = s.text.cStr();
                vh::ledger().failArmed = true;
                try
                {
                    switch (s.kind)
                    {
                    case 0:
                        ctx.log(s.text);
                        break;
                    case 1:
                        ctx.log(c);
                        break;
                    case 2:
                        ctx.logline(s.text);
                        break;
                    case 3:
                        ctx.logline(c);
                        break;
                    case 4:
                        ctx.logf("%s", c);
                        break;
                    case 5:
                        ctx.loglinef("%s", c);
                        break;
                    case 6:
                        ctx.reportError(s.text);
                        break;
                    case 7:
                        ctx.reportError(c);
                        break;
                    default:
                        ctx.reportErrors(s.text, "second %s", c);
                    }
                }
                catch (std::bad_alloc const&)
                {
                    vh::ledger().failArmed = false;
                    if (!guarded)
                        throw;
                    caughtInside = true;
                    break;
                }
                vh::ledger().failArmed = false;
                done += current;
                for (auto& e : currentErrors)
                    errors.push_back(e);
                current.clear();
                currentErrors.clear();
            }
            if (caughtInside)
                ctx.log("|afterwards");
            vh::ledger().failArmed = !caughtInside;
            return result;
        };
        b["command"] = [&command](coil::Context ctx) { return command(ctx); };
        b["ok"] = [](int a, std::string const& s) { return s + std::to_string(a); };
        size_t n = 1 + g.below(7);
        bool reports = g.chance(1, 3);
        for (size_t i = 0; i < n; i++)
        {
            LogStep s;
            s.kind = static_cast<int>(g.below(reports ? 9 : 6));
            s.plain = std::string(g.logsize(300), static_cast<char>('a' + i));
            if (g.chance(1, 4))
                s.plain += "100%s";
            s.text = cs(s.plain);
            steps.push_back(coil::move(s));
        }
        guarded = g.chance(1, 3);
        for (failAt = 0; failAt < 60; failAt++)
        {
            done.clear();
            current.clear();
            errors.clear();
            currentErrors.clear();
            caughtInside = false;
            vh::ledger().failed = 0;
            Outcome o;
            auto live = vh::ledger().liveBlocks;
            bool known = false;
            {
                std::string const text = "command";
                ref::Exact e(text);
                try
                {
                    auto r = b.execute(cv(e));
                    vh::ledger().failArmed = false;
                    r.input = coil::ExecutionInput();
                    o.r = coil::move(r);
                }
                catch (std::bad_alloc const&)
                {
                    vh::ledger().failArmed = false;
                    o.threw = known = true;
                }
                catch (...)
                {
                    vh::ledger().failArmed = false;
                    o.threw = true;
                }
            }
            (void)live;
            bool fired = vh::ledger().failed > 0;
            std::string what = "a command with " + std::to_string(n) + " steps whose allocation " + std::to_string(failAt) + " fails" + (guarded ? " and which goes on" : "");
            vh::st().note = what.c_str();
            vh::observe(vh::hashStr(what + done + "/" + current));
            if (!fired)
            {
                VH_CHECK(!o.threw && sv(o.r.output) == done && o.r.errors.size() == errors.size(), "result", "%s: %s", what.c_str(), vh::esc(show(o.r)).c_str());
                break;
            }
            vh::count("out-of-memory");
            bool escapes = !catches && !caughtInside;
            VH_CHECK(o.threw == escapes && known == escapes, escapes ? "swallowed" : "escaped", "%s: %s", what.c_str(), o.threw ? known ? "bad_alloc escaped" : "something else escaped" : vh::esc(show(o.r)).c_str());
            if (o.threw)
                continue;
            std::string out(sv(o.r.output));
            std::string tail = caughtInside ? "|afterwards" : "";
            bool ok = out.size() >= done.size() + tail.size() && out.compare(0, done.size(), done) == 0 && out.compare(out.size() - tail.size(), tail.size(), tail) == 0;
            if (ok)
            {
                std::string part = out.substr(done.size(), out.size() - done.size() - tail.size());
                ok = current.compare(0, part.size(), part) == 0;
            }
            VH_CHECK(ok, "log-lost", "%s: after \"%s\" was logged (and a part of \"%s\"), the output is \"%s\"", what.c_str(), vh::esc(done).c_str(), vh::esc(current).c_str(), vh::esc(out).c_str());
            size_t count = o.r.errors.size();
            if (!caughtInside)
            {
                VH_CHECK(count > 0 && !o.r.returnValue && sv(o.r.errors[count - 1]).rfind("Exception caught during execution: ", 0) == 0, "caught", "%s: %s", what.c_str(), vh::esc(show(o.r)).c_str());
                count--;
            }
            ok = count >= errors.size() && count <= errors.size() + currentErrors.size();
            for (size_t i = 0; ok && i < count; i++)
                ok = sv(o.r.errors[i]) == (i < errors.size() ? errors[i] : currentErrors[i - errors.size()]);
            VH_CHECK(ok, "errors-lost", "%s: %s", what.c_str(), vh::esc(show(o.r)).c_str());
            auto fine = b.execute("ok 5 text");
            VH_CHECK(fine.errors.empty() && fine.returnValue && sv(*fine.returnValue) == "text5" && sv(fine.output).empty(), "broken-afterwards", "after %s: %s", what.c_str(), vh::esc(show(fine)).c_str());
        }
    }

    void histories(vh::Gen& g)
    {
        model::nextId = 1;
        std::vector<std::string> names = {"a", "b", "c", "d", "e"};
        model::Options o;
        o.names = &names;
        o.throws = true;
        o.nest = g.coin();
        o.nuls = !o.nest;
        o.maxActions = 5;
        model::Model m;
        auto env = std::make_unique<model::Env>();
        for (auto& n : names)
            if (!g.chance(1, 6))
            {
                auto d = model::genDef(g, o);
                m.cmds[n] = d;
                env->bind(n, d);
            }
        std::vector<std::unique_ptr<ref::Exec>> texts;
        for (int i = 0; i < 10; i++)
        {
            std::string const& n = g.pick(names);
            auto it = m.cmds.find(n);
            std::vector<ref::Fields> args;
            model::Named named;
            model::genArgs(g, it == m.cmds.end() ? nullptr : it->second, args, named, 7, 8);
            env->calls.clear();
            m.calls.clear();
            m.running.clear();
            texts.push_back(std::make_unique<ref::Exec>());
            ref::Exec& ex = *texts.back();
            auto w = m.execute(n, args, named);
            bool threw = false;
            model::Thrown t;
            coil::ExecutionResult r;
            try
            {
                r = ex.run(g, env->b, n, args, named);
            }
            catch (...)
            {
                threw = true;
                t = model::describeCurrent();
            }
            std::string what = vh::esc(ex.text);
            vh::st().note = what.c_str();
            vh::observe(vh::hashStr(what + model::render(w)));
            VH_CHECK(env->running.empty(), "unbalanced", "%s", what.c_str());
            if (w.open)
            {
                // what follows is only known if nothing was changed
                return;
            }
            VH_CHECK(env->calls == m.calls, "calls", "%s: %zu calls, expected %zu (or others)", what.c_str(), env->calls.size(), m.calls.size());
            if (w.threw)
            {
                vh::count("escaped");
                VH_CHECK(threw, "swallowed", "%s: no exception reached the caller; %s", what.c_str(), vh::esc(show(r)).c_str());
                VH_CHECK(t.kind == w.threw->kind && t.what == w.threw->what, "changed", "%s: kind %d \"%s\"", what.c_str(), t.kind, vh::esc(t.what).c_str());
            }
            else
            {
                VH_CHECK(!threw, "escaped", "%s: an exception escaped", what.c_str());
                model::compare(r, w, what, "history");
                if (!w.errors.empty() && w.errors.back().text.rfind("Exception caught", 0) == 0)
                    vh::count("caught");
                else
                    vh::count("not-throwing");
            }
            if (g.chance(1, 1500))
                vh::sample(what + " -> " + vh::esc(model::render(w)));
        }
        for (auto& n : names)
            VH_CHECK((env->b.get(cv(n)) != nullptr) == (m.cmds.count(n) > 0), "registry", "command %s", n.c_str());
    }
}

void vh_warmup() {}
bool vh_mode(std::string const&, uint64_t, uint64_t) { return false; }

void vh_case(vh::Gen& g)
{
    vh::inst().reset();
    if (g.chance(1, 8))
        outOfMemory(g);
    else if (g.coin())
        sites(g);
    else
        histories(g);
}
