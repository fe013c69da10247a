// Explicit instantiations of the header-only text I/O components (nothing here is executed).
#include <archon/core/text_file.hpp>
#include <archon/core/buffered_text_file.hpp>
#include <archon/core/text_file_stream.hpp>
#include <archon/core/memory_input_stream.hpp>
#include <archon/core/memory_output_stream.hpp>
#include <archon/core/seed_memory_output_stream.hpp>
#include <archon/core/text_codec.hpp>

using namespace archon;

template class core::GenericTextFile<core::TextFileImpl<char>>;
template class core::GenericTextFile<core::TextFileImpl<wchar_t>>;
template class core::GenericTextFile<core::WindowsTextFileImpl<char>>;
template class core::GenericTextFile<core::WindowsTextFileImpl<wchar_t>>;
template class core::GenericTextFile<core::BufferedTextFileImpl<char>>;
template class core::GenericTextFile<core::BufferedWindowsTextFileImpl<wchar_t>>;
template class core::GenericBufferedTextFile<core::BufferedTextFileImpl<char>>;
template class core::GenericBufferedTextFile<core::BufferedWindowsTextFileImpl<wchar_t>>;
template class core::GenericTextFileStreambuf<core::BufferedTextFileImpl<char>>;
template class core::GenericTextFileStreambuf<core::BufferedTextFileImpl<wchar_t>>;
template class core::GenericTextFileStreambuf<core::BufferedWindowsTextFileImpl<char>>;
template class core::BasicMemoryInputStreambuf<char>;
template class core::BasicMemoryInputStreambuf<wchar_t>;
template class core::BasicMemoryOutputStreambuf<char>;
template class core::BasicMemoryOutputStreambuf<wchar_t>;
