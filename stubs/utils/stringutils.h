/* Stand-in for submodules/utils (empty in this checkout): declarations only, used for parsing. */
#ifndef UTILS_STRINGUTILS_H
#define UTILS_STRINGUTILS_H
#include <algorithm>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
namespace utils {
class StringUtils {
public:
	static bool startsWith(const std::string &str, const std::string &prefix);
	static bool endsWith(const std::string &str, const std::string &suffix);
	static void toUpper(std::string &str);
	static void toLower(std::string &str);
	static void replaceLast(std::string &str, const std::string &what, const std::string &with);
	template<typename T> static std::string toString(T value);
	template<typename T> static T parse(const std::string &str, bool advanced = false);
};
}
#endif
