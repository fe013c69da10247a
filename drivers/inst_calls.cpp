// Calls of function templates and member templates that the library itself does not call (nothing here is executed).
// One function per line: a line that no longer compiles is reported by C12 and left out of the other analyses.
#include <array>
#include <iterator>
#include <locale>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#include <archon/core/as_int.hpp>
#include <archon/core/as_list.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/demangle.hpp>
#include <archon/core/deque.hpp>
#include <archon/core/enum.hpp>
#include <archon/core/flat_map.hpp>
#include <archon/core/format.hpp>
#include <archon/core/formattable_value_ref.hpp>
#include <archon/core/hash_fnv.hpp>
#include <archon/core/hex_dump.hpp>
#include <archon/core/index_iterator.hpp>
#include <archon/core/integer.hpp>
#include <archon/core/memory_input_stream.hpp>
#include <archon/core/memory_output_stream.hpp>
#include <archon/core/mul_prec_int.hpp>
#include <archon/core/proxy_iterator.hpp>
#include <archon/core/random.hpp>
#include <archon/core/scope_exit.hpp>
#include <archon/core/span.hpp>
#include <archon/core/stride_iterator.hpp>
#include <archon/core/string.hpp>
#include <archon/core/string_codec.hpp>
#include <archon/core/string_span.hpp>
#include <archon/core/thread_guard.hpp>
#include <archon/core/type_ident.hpp>
#include <archon/core/unicode.hpp>
#include <archon/core/utility.hpp>
#include <archon/core/value_formatter.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/core/vector.hpp>
#include <archon/core/with_modified_locale.hpp>
#include <archon/log.hpp>
#include <archon/cli.hpp>
#include <archon/math/vector.hpp>
#include <archon/math/matrix.hpp>
#include <archon/util/color.hpp>
#include <archon/util/as_css_color.hpp>
#include <archon/util/pixel_pos.hpp>
#include <archon/util/pixel_size.hpp>
#include <archon/image/bit_field.hpp>
#include <archon/image/block.hpp>
#include <archon/image/comp_repr.hpp>
#include <archon/image/computed_image.hpp>
#include <archon/image/iter.hpp>
#include <archon/image/pixel.hpp>
#include <archon/image/tray.hpp>
#include <archon/display/resolution.hpp>
#include <archon/display/as_key_name.hpp>
#include <archon/render/engine.hpp>
#include <archon/display/connection.hpp>

using namespace archon;

namespace inst_calls {

using C32 = core::StringSpan<char32_t>;
using C16 = core::StringSpan<char16_t>;
using C8 = core::StringSpan<char>;

template<class I> struct Ra {
static void inc(I a, I b) { (void)(a == b); (void)(a != b); ++a; a++; (void)*a; }
static void dec(I a) { --a; a--; }
static void add(I a, std::ptrdiff_t i) { a += i; a -= i; (void)(a + i); (void)(a - i); }
static void addl(I a, std::ptrdiff_t i) { (void)(i + a); }
static void dist(I a, I b) { std::ptrdiff_t d = a - b; (void)d; }
static void lt(I a, I b) { (void)(a < b); }
static void gt(I a, I b) { (void)(a > b); }
static void le(I a, I b) { (void)(a <= b); }
static void ge(I a, I b) { (void)(a >= b); }
static void at(I a, std::ptrdiff_t i) { (void)a[i]; }
};

} // namespace inst_calls
using namespace inst_calls;

template struct inst_calls::Ra<core::StrideIterator<int*, 2>>;
template struct inst_calls::Ra<core::StrideIterator<std::vector<int>::const_iterator, 3>>;
template struct inst_calls::Ra<core::ProxyIterator<const short*, int>>;
template struct inst_calls::Ra<core::Span<int>::iterator>;
template struct inst_calls::Ra<core::Deque<int>::iterator>;
template struct inst_calls::Ra<core::Deque<std::string>::const_iterator>;
template struct inst_calls::Ra<core::Span<const int>::const_reverse_iterator>;
template struct inst_calls::Ra<core::IndexIterator<const std::vector<int>>>;

static void unicode_1(C32 s, core::Buffer<char>& b, std::size_t& n) { core::encode_utf8(s, b, n); core::encode_utf8_l(s, b, n); core::try_encode_utf8(s, b, n); }
static void unicode_2(C8 s, core::Buffer<char32_t>& b, std::size_t& n) { core::decode_utf8(s, b, n); }
static void unicode_3(C8 s, core::Buffer<char32_t>& b, std::size_t& n) { core::decode_utf8_l(s, b, n); }
static void unicode_4(C8 s, core::Buffer<char32_t>& b, std::size_t& n) { core::try_decode_utf8(s, b, n); }
static void unicode_5(C32 s, core::Buffer<char16_t>& b, std::size_t& n) { core::encode_utf16(s, b, n); }
static void unicode_6(C32 s, core::Buffer<char16_t>& b, std::size_t& n) { core::encode_utf16_l(s, b, n); }
static void unicode_7(C32 s, core::Buffer<char16_t>& b, std::size_t& n) { core::try_encode_utf16(s, b, n); }
static void unicode_8(C16 s, core::Buffer<char32_t>& b, std::size_t& n) { core::decode_utf16(s, b, n); }
static void unicode_9(C16 s, core::Buffer<char32_t>& b, std::size_t& n) { core::decode_utf16_l(s, b, n); }
static void unicode_10(C16 s, core::Buffer<char32_t>& b, std::size_t& n) { core::try_decode_utf16(s, b, n); }
static void unicode_11(C8 s, core::Buffer<char16_t>& b, std::size_t& n) { core::utf8_to_utf16(s, b, n); }
static void unicode_12(C8 s, core::Buffer<char16_t>& b, std::size_t& n) { core::utf8_to_utf16_l(s, b, n); }
static void unicode_13(C8 s, core::Buffer<char16_t>& b, std::size_t& n) { core::try_utf8_to_utf16(s, b, n); }
static void unicode_14(C16 s, core::Buffer<char>& b, std::size_t& n) { core::utf16_to_utf8(s, b, n); }
static void unicode_15(C16 s, core::Buffer<char>& b, std::size_t& n) { core::utf16_to_utf8_l(s, b, n); }
static void unicode_16(C16 s, core::Buffer<char>& b, std::size_t& n) { core::try_utf16_to_utf8(s, b, n); }

static void util_1(int a, double b, std::string& c) { (void)core::get_arg_at<1>(a, b, c); }
static bool util_2() { return core::has_arg<std::is_integral, int, double>() && core::has_unique_arg<std::is_integral, int, double>(); }
static std::size_t util_3() { return core::find_first_arg<std::is_integral, double, int>() + core::find_unique_arg<std::is_integral, double, int>(); }
static void util_4(int a, double b) { (void)core::get_first_arg<std::is_floating_point>(std::move(a), std::move(b)); }
static void util_5(int a, double b) { (void)core::get_unique_arg<std::is_floating_point>(std::move(a), std::move(b)); }
static void util_6(int a, double b) { (void)core::get_first_arg_by_type<double>(a, b); }
static void util_7(int a, double b) { (void)core::get_unique_arg_by_type<double>(a, b); }
static void util_8(std::tuple<int, double>& t) { core::for_each_tuple_elem(t, [](auto&&, auto&&...) {}); }
static void util_9(std::tuple<int, double>& t) { (void)core::for_each_tuple_elem_a(t, [](auto&&, auto&&...) { return true; }); }

static void int_1(unsigned v, int w) { (void)core::int_is_power_of_two(v); (void)core::int_is_min(w); }
static void int_2(int v) { (void)core::cast_to_twos_compl<unsigned>(v); }
static void int_3(int v) { (void)core::can_cast_to_twos_compl<unsigned short>(v); }
static void int_4(int v, unsigned char& w) { (void)core::try_cast_to_twos_compl(v, w); }
static void int_5(int v) { (void)core::cast_to_twos_compl_a<unsigned>(v); }
static void int_6(unsigned v) { (void)core::can_cast_from_twos_compl<short>(v); }
static void int_7(unsigned v) { (void)core::twos_compl_cast<unsigned short>(v); }
static void int_8(unsigned v) { (void)core::can_twos_compl_cast<unsigned short>(v); }
static void int_9(unsigned v, unsigned short& w) { (void)core::try_twos_compl_cast(v, w); }
static void int_10(int a, long b) { (void)core::can_int_mul(a, b); }
static void int_11(int a, long b) { (void)core::can_int_add(a, b); (void)core::can_int_sub(a, b); }

static void str_1(std::string_view a, std::string_view b) { (void)core::contains(a, b); (void)core::contains(a, "x"); }
static void str_2(std::wstring_view a, std::wstring_view b) { (void)core::contains(a, b); (void)core::contains(a, L"x"); }
static void str_3(std::string_view& a, const char* b, const char* c) { core::rebase_string(a, b, c); }
static void str_4(std::string_view a) { (void)core::decode_string<wchar_t>(a); }
static void str_5(std::wstring_view a) { (void)core::encode_string(a); }

static void fmt_1(std::ostream& o, core::Span<const core::FormattableValueRef> v) { core::format_alt(o, "%s", v); }
static void fmt_2(std::wostream& o, core::Span<const core::WideFormattableValueRef> v) { core::format_alt(o, "%s", v); }
static void fmt_3(std::wostream& o, core::Span<const core::WideFormattableValueRef> v) { core::format_alt(o, L"%s", v); }
static void fmt_4(std::ostream& o, core::Span<const core::FormattableValueRef> v) { core::format_alt(o, std::string_view("%s"), v); }
static void fmt_5(std::ostream& o, int i, int& j) { o << core::as_dec_int(i) << core::as_bin_int(i) << core::as_oct_int(j) << core::as_hex_int(j); }
static void fmt_6(std::ostream& o, int& i) { o << core::as_int_a(i, 7); }
static void fmt_7(std::ostream& o, std::vector<int> v) { o << core::as_rbr_list(v) << core::as_sbr_list(v) << core::as_cbr_list(v) << core::as_abr_list(v); }
static void fmt_8(std::wostream& o, std::vector<int> v) { o << core::as_rbr_list(v) << core::as_list(v) << core::as_int(7, 3); }
static void fmt_9(core::ValueParser& p, std::string_view s, std::vector<int>& v, std::size_t& n) { (void)p.parse(s, core::as_list(v)); (void)p.parse(s, core::as_list_v(v, n)); }
static void fmt_10(core::ValueParser& p, std::string_view s, std::array<int, 3>& v, std::size_t& n) { (void)p.parse(s, core::as_list_v(v, n)); }
static void fmt_11(core::ValueParser& p, std::string_view s, std::array<int, 3>& v) { (void)p.parse(s, core::as_list_a(v, 1)); }
static void fmt_12(core::ValueParser& p, std::string_view s, int& i, unsigned& j) { (void)p.parse(s, core::as_bin_int(i)); (void)p.parse(s, core::as_hex_int(j)); (void)p.parse(s, core::as_flex_int(j)); }
static void fmt_13(core::WideValueParser& p, std::wstring_view s, int& i, unsigned& j) { (void)p.parse(s, core::as_bin_int(i)); (void)p.parse(s, core::as_hex_int(j)); (void)p.parse(s, core::as_flex_int(j)); }
static void fmt_14(core::ValueParser& p, std::string_view s, double& d, const std::locale& l) { (void)p.parse(s, core::with_modified_locale(d, l, std::locale::numeric)); }
static void fmt_15(core::ValueParser& p, std::string_view s, double& d) { (void)p.parse(s, core::with_reverted_numerics(d)); }
static void fmt_16(std::istream& o, int& i) { o >> core::as_int(i); }
static void fmt_17(std::istream& o, int& i) { o >> core::as_hex_int(i); }

static void hex_1(std::ostream& o, std::string_view s) { core::hex_dump(o, s); }
static void hex_2(std::ostream& o, std::string_view s) { core::hex_dump(o, s, std::string_view(" ")); }
static void hex_3(std::wostream& o, std::string_view s) { core::hex_dump(o, s); o << core::as_hex_dump(s); }

static void rnd_1(std::mt19937& e, core::Span<double> v) { core::rand_unit_vec(e, v); }
static void rnd_2(std::mt19937& e) { (void)core::rand_float<float>(e); (void)core::rand_float(e, 1.0, 2.0); (void)core::rand_int(e, 1, 2); (void)core::rand_int<short>(e); (void)core::rand_int_max(e, 7u); (void)core::rand_int_mod(e, 7); (void)core::rand_int_bits<int>(e, 7); (void)core::chance(e, 1, 2); }
static void dem_1() { core::dump_wrapped_type_name<int>(); (void)core::get_wrapped_type_name<int>(); (void)core::get_type_name<int>(); }
static void tid_1() { (void)core::get_type_ident<int>(); }
static void buf_1(core::Buffer<int>& b) { b.reserve_f(7, 3, [](core::Span<int>) noexcept {}); }
static void buf_2(core::Buffer<std::string>& b) { b.reserve(7, 3); b.reserve_extra(3, 2); b.expand(3); }
static void fnv_1(core::Hash_FNV_1a_32& h, int i) { h.add_obj(i); }
static void mem_1(core::MemoryInputStream& i, core::WideMemoryInputStream& w) { (void)i.view(); (void)w.view(); }
static void mem_2(core::MemoryOutputStream& o) { (void)o.view(); }
static void mpi_1(core::MulPrecInt<unsigned char, 3, false>& a, const core::MulPrecInt<unsigned char, 3, false>& b) { a += b; a -= b; a *= b; a /= b; a %= b; a &= b; a |= b; a ^= b; a <<= 3; a >>= 3; }
static void mpi_2(core::MulPrecInt<unsigned short, 3, true>& a, const core::MulPrecInt<unsigned short, 3, true>& b) { a += b; a -= b; a *= b; a /= b; a %= b; a &= b; a |= b; a ^= b; a <<= 3; a >>= 3; }
static void scope_1() { core::ScopeExit s([]() noexcept {}); s.release(); }
static void thr_1() { auto f = [] {}; core::ThreadGuard a(f); core::ThreadGuard b([] {}); a = std::move(b); a.join_and_rethrow(); }

static void log_1(log::Logger& l) { l.fatal("%s", 1); l.error("%s", 1); l.warn("%s", 1); l.info("%s", 1); l.detail("%s", 1); l.debug("%s", 1); l.trace("%s", 1); }
static void log_2(log::Logger& l, std::string_view m) { l.fatal(m, 1); l.error(m, 1); l.warn(m, 1); l.info(m, 1); l.detail(m, 1); l.debug(m, 1); l.trace(m, 1); }
static void log_3(log::WideLogger& l) { l.fatal("%s", 1); l.error("%s", 1); l.warn("%s", 1); l.info("%s", 1); l.detail("%s", 1); l.debug("%s", 1); l.trace("%s", 1); }
static void log_4() { log::fatal("%s", 1); log::error("%s", 1); log::warn("%s", 1); log::info("%s", 1); log::detail("%s", 1); log::debug("%s", 1); log::trace("%s", 1); }

static auto cli_1() { return cli::exec_c([] { return true; }, [](int) { return true; }); }
static auto cli_2(int& i) { return cli::assign_c(i, [](int v) { return v > 0; }); }
static auto cli_3(int& i) { return cli::assign_c(i, [](int v) { return v > 0; }, 7); }
static auto cli_4(int& i) { return cli::assign(i, 7); }

static void col_1(math::Vector<3, double> v, math::Vector<4, float> w) { (void)util::Color::from_vec(v); (void)util::Color::from_vec(w); }
static void col_2(core::ValueParser& p, std::string_view s, util::Color& c) { (void)p.parse(s, util::as_css_color(c)); }
static void pix_1(core::ValueParser& p, std::string_view s, util::pixel::Pos& a, util::pixel::Size& b) { (void)p.parse(s, a); (void)p.parse(s, b); }
static void res_1(core::ValueParser& p, std::string_view s, display::Resolution& a) { (void)p.parse(s, a); }
static void ipx_1(core::ValueParser& p, std::string_view s, image::Pixel<image::RGBA_8>& a, image::Pixel<image::Lum_F>& b) { (void)p.parse(s, a); (void)p.parse(s, b); }
static void img_1(const image::BitField* f) { (void)image::get_bit_field_mask<unsigned>(f, 3, 1); }
static void img_2() { (void)image::comp_repr_less<image::CompRepr::int8>(1, 2); (void)image::comp_repr_less<image::CompRepr::float_>(1, 2); }
static void img_3() { (void)image::comp_repr_unpacked_max<image::CompRepr::int8>(); (void)image::comp_repr_unpacked_max<image::CompRepr::float_>(); }
static image::Iter<const int> img_4(image::Iter<int> i) { return i; }
static image::Tray<const int> img_5(image::Tray<int> i) { return i; }
static void mat_1(math::Matrix<2, 2, float> m, math::Vector<2, float> v) { (void)math::Matrix<2, 2, double>(m); (void)math::Vector<2, double>(v); }
static void ren_1(render::Engine& e, render::KeyIdent k) { e.bind_key(k, "x", [](bool) {}); (void)e.register_key_handler("x", [](bool) {}); }
static void key_1(std::ostream& o, std::wostream& w, const display::Connection& c) { o << display::as_key_name(display::KeyCode { 7 }, c); w << display::as_key_name(display::KeyCode { 7 }, c); }
static void cim_1(const image::Tray<void>& t) { image::ComputedImage i(image::Size(3, 3), [](image::Pos) { return image::Pixel_Lum_F({ 0.5f }); }); i.read({}, t); (void)i.get_size(); }
static void itr_1(core::Deque<std::string>::iterator i) { (void)i->size(); }
static void itr_2(core::IndexIterator<std::vector<std::string>> i) { (void)i->size(); }
static void itr_3(core::StrideIterator<std::vector<std::string>::iterator, 2> i) { (void)i->size(); }
static void itr_4(int* i) { auto j = core::make_stride_iterator<3>(i); (void)*j; }
static void mov_1(core::MemoryOutputStream& o) { (void)o.get_base(); }
static void ifm_1(core::IntegerFormatter& f, int i) { (void)f.format_bin(i); (void)f.format_oct(i); (void)f.format_hex(i); (void)f.format_dec(i); }
static void ips_1(core::IntegerParser& p, std::string_view s, int& i) { (void)p.parse_bin(s, i); (void)p.parse_oct(s, i); (void)p.parse_hex(s, i); (void)p.parse_dec(s, i); }
static void mpi_3(const core::MulPrecInt<unsigned char, 3, false>& a) { (void)bool(a); (void)int(a); }
