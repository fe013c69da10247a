// Constructs that the rule of C11 must (BAD) and must not (OK) report.
#include <csetjmp>
#include <exception>
#include <string>
#include <system_error>
#include <png.h>
namespace {
struct Ctx { png_structp png; png_infop info; std::error_code ec; bool has_error = false; std::exception_ptr exception; int n = 0; };
void work();
std::string name();
void take(png_structp, const std::string&);

void cb1(png_structp p) noexcept {
    Ctx& ctx = *static_cast<Ctx*>(png_get_error_ptr(p));
    try { work(); return; }
    catch (...) { ctx.exception = std::current_exception(); }
    std::longjmp(png_jmpbuf(p), 1);
}
void cb2(png_structp p) noexcept {
    Ctx& ctx = *static_cast<Ctx*>(png_get_error_ptr(p));
    try { work(); return; }
    catch (...) { ctx.n = 1; }
    std::longjmp(png_jmpbuf(p), 1); // BAD
}
void cb3(png_structp p) noexcept {
    Ctx& ctx = *static_cast<Ctx*>(png_get_error_ptr(p));
    try { work(); return; }
    catch (...) {
        ctx.exception = std::current_exception();
        std::longjmp(png_jmpbuf(p), 1); // BAD
    }
}
void cb4(png_structp p) noexcept {
    Ctx& ctx = *static_cast<Ctx*>(png_get_error_ptr(p));
    std::string s = "x";
    ctx.ec = {};
    ctx.has_error = true;
    std::longjmp(png_jmpbuf(p), 1); // BAD
}
void cb5(png_structp p) noexcept {
    Ctx& ctx = *static_cast<Ctx*>(png_get_error_ptr(p));
    { std::string s = "x"; ctx.n = int(s.size()); }
    ctx.ec = {};
    ctx.has_error = true;
    std::longjmp(png_jmpbuf(p), 1);
}
void cb6(png_structp p) noexcept {
    Ctx& ctx = *static_cast<Ctx*>(png_get_error_ptr(p));
    ctx.has_error = true;
    std::longjmp(png_jmpbuf(p), 1); // BAD
}
void cb7(png_structp p) {
    Ctx& ctx = *static_cast<Ctx*>(png_get_error_ptr(p));
    ctx.exception = nullptr;
    std::longjmp(png_jmpbuf(p), 1); // BAD
}

bool do1(Ctx& ctx) {
    if (setjmp(png_jmpbuf(ctx.png)) == 0) {
        png_read_info(ctx.png, ctx.info);
        { std::string s = name(); ctx.n = int(s.size()); }
        png_read_end(ctx.png, ctx.info);
    }
    else {
        return false;
    }
    return true;
}
bool do2(Ctx& ctx) {
    if (setjmp(png_jmpbuf(ctx.png)) == 0) {
        std::string s = name();
        png_read_info(ctx.png, ctx.info); // BAD
    }
    else {
        return false;
    }
    return true;
}
bool do3(Ctx& ctx) {
    if (setjmp(png_jmpbuf(ctx.png)) == 0) {
        png_read_info(ctx.png, ctx.info);
    }
    else {
        return false;
    }
    png_read_end(ctx.png, ctx.info); // BAD
    return true;
}
bool do4(Ctx& ctx) {
    if (setjmp(png_jmpbuf(ctx.png)) == 0) // BAD
        png_read_info(ctx.png, ctx.info);
    return true;
}
bool do5(Ctx& ctx) {
    int rows = 0;
    if (setjmp(png_jmpbuf(ctx.png)) == 0) {
        png_read_info(ctx.png, ctx.info);
        rows = 1; // BAD
        png_read_end(ctx.png, ctx.info);
    }
    else {
        ctx.n = rows;
        return false;
    }
    return true;
}
bool do6(Ctx& ctx) {
    volatile int rows = 0;
    if (setjmp(png_jmpbuf(ctx.png)) != 0) {
        ctx.n = rows;
        return false;
    }
    png_read_info(ctx.png, ctx.info);
    rows = 1;
    png_read_end(ctx.png, ctx.info);
    return true;
}
bool do7(Ctx& ctx) {
    if (setjmp(png_jmpbuf(ctx.png)) == 0) {
        png_read_info(ctx.png, ctx.info);
    }
    else {
        return true; // BAD
    }
    return true;
}
void helper(Ctx& ctx, std::size_t n) { png_set_text(ctx.png, ctx.info, nullptr, int(n)); }
bool do8(Ctx& ctx) {
    if (setjmp(png_jmpbuf(ctx.png)) == 0) {
        helper(ctx, name().size()); // BAD
        helper(ctx, 1);
        try { helper(ctx, 2); } catch (...) { ctx.n = 1; } // BAD
    }
    else {
        return false;
    }
    return true;
}
bool do9(Ctx& ctx) {
    std::string s = name();
    if (setjmp(png_jmpbuf(ctx.png)) == 0) {
        png_set_text(ctx.png, ctx.info, nullptr, int(s.size()));
    }
    else {
        return false;
    }
    return true;
}
bool use1(Ctx& ctx, std::error_code& ec) {
    if (do1(ctx)) return true;
    if (ctx.exception) std::rethrow_exception(std::move(ctx.exception));
    ec = ctx.ec;
    return false;
}
bool use2(Ctx& ctx, std::error_code& ec) {
    if (do1(ctx)) return true; // BAD
    ec = ctx.ec;
    return false;
}
bool use3(Ctx& ctx, std::error_code& ec) {
    if (do1(ctx)) return true;
    ec = ctx.ec;
    if (ctx.exception) std::rethrow_exception(std::move(ctx.exception));
    return false;
}
void failed(Ctx& ctx, std::error_code ec) { ctx.ec = ec; ctx.has_error = true; }
[[noreturn]] void leave(png_structp p) noexcept { std::longjmp(png_jmpbuf(p), 1); }
void cb8(png_structp p) noexcept {
    Ctx& ctx = *static_cast<Ctx*>(png_get_error_ptr(p));
    failed(ctx, {});
    leave(p);
}
void cb9(png_structp p) noexcept {
    Ctx& ctx = *static_cast<Ctx*>(png_get_error_ptr(p));
    if (ctx.n) failed(ctx, {});
    leave(p); // BAD
}
}
