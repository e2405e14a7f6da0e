#ifndef UTILS_STRINGUTILS_H
#define UTILS_STRINGUTILS_H
#include <string>
#include <sstream>
#include <algorithm>
#include <cctype>
namespace utils { struct StringUtils {
 static void toUpper(std::string& s){ for(size_t i=0;i<s.size();i++) s[i]=toupper(s[i]); }
 static bool startsWith(const std::string& s,const std::string& p){ return s.compare(0,p.size(),p)==0; }
 template<typename T> static std::string toString(T v){ std::ostringstream o; o<<v; return o.str(); }
 template<typename T> static T parse(const std::string& s, bool=false){ T v=T(); std::istringstream i(s); i>>v; return v; }
}; template<> inline std::string StringUtils::parse<std::string>(const std::string& s,bool){return s;} template<> inline const char* StringUtils::parse<const char*>(const std::string& s,bool){return s.c_str();} }
#endif
