// Explicit instantiations of header-only components of archon::core (nothing here is executed).
#include <string>
#include <string_view>
#include <memory>
#include <cstdint>
#include <archon/core/array_seeded_buffer.hpp>
#include <archon/core/base64.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/buffer_contents.hpp>
#include <archon/core/char_mapper.hpp>
#include <archon/core/deque.hpp>
#include <archon/core/flat_map.hpp>
#include <archon/core/flat_multimap.hpp>
#include <archon/core/flat_multiset.hpp>
#include <archon/core/flat_set.hpp>
#include <archon/core/frozen_sets.hpp>
#include <archon/core/histogram.hpp>
#include <archon/core/index_range.hpp>
#include <archon/core/integer_formatter.hpp>
#include <archon/core/integer_parser.hpp>
#include <archon/core/memory.hpp>
#include <archon/core/range_map.hpp>
#include <archon/core/span.hpp>
#include <archon/core/stream_input.hpp>
#include <archon/core/stream_output.hpp>
#include <archon/core/stride_iterator.hpp>
#include <archon/core/string.hpp>
#include <archon/core/string_buffer_contents.hpp>
#include <archon/core/string_codec.hpp>
#include <archon/core/string_formatter.hpp>
#include <archon/core/string_matcher.hpp>
#include <archon/core/string_span.hpp>
#include <archon/core/string_template.hpp>
#include <archon/core/text_formatter.hpp>
#include <archon/core/text_parser.hpp>
#include <archon/core/timestamp_formatter.hpp>
#include <archon/core/typed_object_registry.hpp>
#include <archon/core/value_formatter.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/core/value_reset_guard.hpp>
#include <archon/core/var_string_ref.hpp>
#include <archon/core/vector.hpp>

using namespace archon;

template class core::Vector<int>;
template class core::Vector<std::string>;
template class core::Vector<std::string, 3>;
template class core::Deque<int>;
template class core::Deque<std::string>;
template class core::Buffer<int>;
template class core::Buffer<char>;
template class core::Buffer<std::string>;
template class core::BufferContents<char>;
template class core::Slab<std::string>;
template class core::ArraySeededBuffer<char, 16>;
template class core::FlatMap<int, std::string>;
template class core::FlatMap<std::string_view, int, 2>;
template class core::FlatSet<int>;
template class core::FlatSet<std::string_view>;
template class core::FlatMultimap<int, std::string>;
template class core::FlatMultiset<int>;
template class core::FrozenSets<std::size_t>;
template class core::Histogram<double>;
template class core::RangeMap<int, std::string>;
template class core::StringSpan<char>;
template class core::StringSpan<wchar_t>;
template class core::Span<int>;
template class core::Span<const char>;
template class core::BasicStringMatcher<char>;
template class core::BasicStringMatcher<wchar_t>;
template class core::BasicStringSplitter<char>;
template class core::BasicStringSplitter<wchar_t>;
template class core::BasicTextFormatter<char>;
template class core::BasicTextFormatter<wchar_t>;
template class core::BasicTextParser<char>;
template class core::BasicTextParser<wchar_t>;
template class core::BasicTimestampFormatter<char>;
template class core::BasicTimestampFormatter<wchar_t>;
template class core::BasicVarStringRef<char>;
template class core::BasicVarStringRef<wchar_t>;
template class core::BasicStringFormatter<char>;
template class core::BasicStringFormatter<wchar_t>;
template class core::BasicStringWidener<char>;
template class core::BasicStringWidener<wchar_t>;
template class core::BasicStringNarrower<char>;
template class core::BasicStringNarrower<wchar_t>;
template class core::BasicStringBufferContents<char>;
template class core::BasicStringBufferContents<wchar_t>;
template class core::base64::BasicEncoder<char>;
template class core::base64::BasicDecoder<char>;
template class core::base64::BasicDecoder<wchar_t>;
template class core::BasicIntegerFormatter<char>;
template class core::BasicIntegerFormatter<wchar_t>;
template class core::BasicIntegerParser<char>;
template class core::BasicIntegerParser<wchar_t>;
template class core::BasicValueFormatter<char>;
template class core::BasicValueParser<char>;
template class core::BasicValueParser<wchar_t>;
template class core::TypedObjectRegistry<std::string, 2>;
template class core::BasicStreamInputHelper<char>;
template class core::BasicStreamOutputHelper<char>;
template class core::BasicStreamOutputHelper<wchar_t>;
template class core::BasicStreamOutputAltHelper<char>;

namespace {
template<class S> void use_template()
{
    using T = core::BasicStringTemplate<S, int, long>;
    (void)sizeof(T);
}
}
void archon_verif_use_templates()
{
    use_template<std::string>();
    core::Vector<std::string> v;
    v.push_back("x"); v.emplace_back("y"); v.append(v.begin(), v.end());
    core::Deque<std::string> d;
    d.push_back("x"); d.push_front("x"); d.emplace_back("x"); d.emplace_front("z"); d.append(v.begin(), v.end());
    core::Deque<std::string> e(d), g(std::move(d));
    (void)(e == g); (void)(e < g); swap(e, g);
    core::Vector<std::string> w(v.begin(), v.end()), x(std::move(v));
    (void)(w == x); (void)(w < x); swap(w, x);
    core::FlatMap<int, std::string> m = { { 1, "x" } };
    m.emplace(1, "y"); m[3] = "q"; m.insert({ 7, "s" });
    core::FlatSet<std::string_view> s; s.insert("x"); s.emplace("y");
    core::FlatMultimap<int, std::string> mm; mm.emplace(1, "y"); mm.insert({ 2, "z" });
    core::FlatMultiset<int> ms; ms.insert(4); ms.emplace(5);
    core::RangeMap<int, std::string> rm;
    core::Slab<std::string> sl(4);
    sl.add("x"); sl.recreate(3);
   
}
