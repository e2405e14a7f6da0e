#ifndef UTILS_LOGGER_H
#define UTILS_LOGGER_H
// quiet replacement of the logger used by ASAGI
#include <cstdlib>
namespace utils { struct Logger { template<class T> Logger& operator<<(const T&) { return *this; } static Logger& nospace() { static Logger l; return l; } }; inline Logger nospace() { return Logger(); } }
inline utils::Logger logDebug(int=0){return utils::Logger();}
inline utils::Logger logInfo(int=0){return utils::Logger();}
inline utils::Logger logWarning(int=0){return utils::Logger();}
inline utils::Logger logError(){return utils::Logger();}
#ifdef NDEBUG
#define NDBG_UNUSED(x) ((void) x)
#else
#define NDBG_UNUSED(x)
#endif
#endif
