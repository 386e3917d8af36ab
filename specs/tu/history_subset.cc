// Instantiates the history templates of base/base.h for the three record types (nothing else is verified from here).
#include "base/base.h"
namespace trader {
#define SUBSET(T)                                                                                                  \
  template std::pair<std::vector<T>::const_iterator, std::vector<T>::const_iterator> HistorySubset(                \
      const std::vector<T>&, int64_t, int64_t);                                                                    \
  template std::vector<T> HistorySubsetCopy(const std::vector<T>&, int64_t, int64_t);
SUBSET(PriceRecord)
SUBSET(OhlcTick)
SUBSET(SideInputRecord)
}  // namespace trader
