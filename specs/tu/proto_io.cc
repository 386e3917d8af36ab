// Instantiates the templates of util/proto.h for one record type (nothing else is verified from here).
#include "base/base.h"
#include "util/proto.h"
namespace trader {
typedef std::vector<OhlcTick>::const_iterator VerifIterator;
template absl::Status ReadDelimitedMessagesFromIStream<OhlcTick>(std::istream&, std::function<ReaderStatus(const OhlcTick&)>);
template absl::Status ReadDelimitedMessagesFromIStream<OhlcTick>(std::istream&, std::vector<OhlcTick>&);
template absl::Status ReadDelimitedMessagesFromFile<OhlcTick>(const std::string&, std::function<ReaderStatus(const OhlcTick&)>);
template absl::Status ReadDelimitedMessagesFromFile<OhlcTick>(const std::string&, std::vector<OhlcTick>&);
template absl::Status WriteDelimitedMessagesToOStream<VerifIterator>(VerifIterator, VerifIterator, std::ostream&, bool);
template absl::Status WriteDelimitedMessagesToFile<VerifIterator>(VerifIterator, VerifIterator, const std::string&, bool);
}  // namespace trader
