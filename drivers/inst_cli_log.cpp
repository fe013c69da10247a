// Explicit instantiations of the command-line and logging libraries for narrow and wide characters (nothing here is executed).
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>
#include <archon/core/char_codec.hpp>
#include <archon/log.hpp>
#include <archon/log/channel.hpp>
#include <archon/log/channel_logger.hpp>
#include <archon/log/channel_map.hpp>
#include <archon/log/duplicating_logger.hpp>
#include <archon/log/encoding_logger.hpp>
#include <archon/log/jail_logger.hpp>
#include <archon/log/limit.hpp>
#include <archon/log/limit_logger.hpp>
#include <archon/log/prefix.hpp>
#include <archon/log/prefix_logger.hpp>
#include <archon/log/sink.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/log/timestamp_logger.hpp>
#include <archon/cli.hpp>
#include <archon/cli/process.hpp>
#include <archon/cli/logging_error_handler.hpp>

using namespace archon;

template class log::BasicChannel<char>;
template class log::BasicChannel<wchar_t>;
template class log::BasicChannelLogger<char>;
template class log::BasicChannelLogger<wchar_t>;
template class log::BasicChannelMap<char>;
template class log::BasicDuplicatingLogger<char>;
template class log::BasicDuplicatingLogger<wchar_t>;
template class log::BasicEncodingLogger<char>;
template class log::BasicEncodingLogger<wchar_t>;
template class log::BasicJailLogger<char>;
template class log::BasicJailLogger<wchar_t>;
template class log::BasicLimitLogger<char>;
template class log::BasicLimitLogger<wchar_t>;
template class log::BasicLogger<char>;
template class log::BasicLogger<wchar_t>;
template class log::BasicRootLogger<char>;
template class log::BasicRootLogger<wchar_t>;
template class log::BasicNullLogger<char>;
template class log::BasicNullLogger<wchar_t>;
template class log::BasicNullPrefix<wchar_t>;
template class log::BasicCompoundPrefix<char>;
template class log::BasicCompoundPrefix<wchar_t>;
template class log::BasicPrefixLogger<char>;
template class log::BasicPrefixLogger<wchar_t>;
template class log::BasicStreamLogger<char>;
template class log::BasicStreamLogger<wchar_t>;
template class log::BasicTimestampLogger<char>;
template class log::BasicTimestampLogger<wchar_t>;

template class cli::BasicCommandLine<char>;
template class cli::BasicCommandLine<wchar_t>;
template class cli::BasicErrorHandler<char>;
template class cli::BasicLoggingErrorHandler<char>;
template class cli::BasicLoggingErrorHandler<wchar_t>;
template class cli::BasicProcessor<char>;
template class cli::BasicProcessor<wchar_t>;
template class cli::BasicSpec<char>;
template class cli::BasicSpec<wchar_t>;

namespace {
template<class C> void use(int argc, char* argv[], std::locale& loc)
{
    using proc_type = cli::BasicProcessor<C>;
    typename proc_type::spec_type spec;
    std::optional<int> o;
    bool b = false;
    std::string s;
    pat("", cli::no_attributes, spec, "Lorem ipsum.", [&] { return 0; });
    pat("foo <n> [<m>]", cli::no_attributes, spec, "Lorem ipsum.", [&](int n, std::optional<int>) { return n; });
    pat("bar <n>...", cli::no_attributes, spec, "Lorem ipsum.", [&](std::vector<int> n) { return int(n.size()); });
    pat("sub ...", cli::no_attributes, spec, "Lorem ipsum.", [](const cli::BasicCommandLine<C>& cl) {
        typename proc_type::spec_type spec_2;
        return cli::process(cl, spec_2);
    });
    opt(cli::help_tag, spec);
    opt("-a", "<arg>", cli::no_attributes, spec, "Lorem ipsum.", cli::assign(o));
    opt("-b", "", cli::no_attributes, spec, "Lorem ipsum.", cli::raise_flag(b));
    opt("-c", "[<arg>]", cli::no_attributes, spec, "Lorem ipsum.", cli::assign(s));
    opt("-d", "<arg>", cli::no_attributes, spec, "Lorem ipsum.", cli::exec([&](int) {}));
    typename proc_type::command_line_type::Config config;
    cli::process(argc, argv, spec, loc, std::move(config));
}
}

void archon_verif_use_cli(int argc, char* argv[], std::locale& loc)
{
    use<char>(argc, argv, loc);
    use<wchar_t>(argc, argv, loc);
}
