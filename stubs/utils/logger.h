/* Stand-in for submodules/utils (empty in this checkout): declarations only, used for parsing. */
#ifndef UTILS_LOGGER_H
#define UTILS_LOGGER_H
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <iostream>
#include <string>
#define NDBG_UNUSED(x) ((void)x)
namespace utils {
class Logger {
public:
	enum DebugType { LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_ERROR };
	Logger(DebugType t, int rank);
	~Logger();
	template<typename T> Logger& operator<<(const T &v) { put(&v); return *this; }
	Logger& operator<<(std::ostream& (*f)(std::ostream&));
	Logger& nospace();
private:
	void put(const void* p);
};
}
inline utils::Logger logDebug(int rank = 0) { return utils::Logger(utils::Logger::LOG_DEBUG, rank); }
inline utils::Logger logInfo(int rank = 0) { return utils::Logger(utils::Logger::LOG_INFO, rank); }
inline utils::Logger logWarning(int rank = 0) { return utils::Logger(utils::Logger::LOG_WARNING, rank); }
inline utils::Logger logError() { return utils::Logger(utils::Logger::LOG_ERROR, 0); }
#endif
