// Constructs that the rule of C18 must report (`BAD`), and ones that it must not.
#include <string_view>
#include <locale>
#include <archon/core/format.hpp>
#include <archon/log.hpp>
using namespace archon;
namespace selftest {
template<class... P> void wrap(log::Logger& l, std::string_view message, const P&... params) { l.error(message, params...); }
void f(log::Logger& l, const std::locale& loc, int a, int b, bool x)
{
    l.info("ok %s %s", a, b);
    l.info("one %s", a, b); // BAD
    l.warn("two %s %s", a); // BAD
    l.error("wrong %d", a); // BAD
    static_cast<void>(core::format(loc, "%s", a, b)); // BAD
    static_cast<void>(core::format(loc, "%% %s", a));
    wrap(l, "x"); wrap(l, "%s"); // BAD
    wrap(l, x ? "y %s" : "z %s", a);
    const char* m = "m %s %s";
    l.detail(m, a, b);
    auto lam = [&](std::string_view message, const auto&... params) { l.error(message, params...); };
    lam("l %s", a, b); // BAD
    lam("l %s", a);
}
}
