// Independent UTF-8 coding for oracles (strict; scalar values)
#pragma once
#include <string>
#include <cstdint>
namespace u8 {
typedef std::u32string U;
inline void put(std::string& o, char32_t c)
{
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xC0|c>>6); o += (char)(0x80|(c&63)); }
	else if (c < 0x10000) { o += (char)(0xE0|c>>12); o += (char)(0x80|(c>>6&63)); o += (char)(0x80|(c&63)); }
	else { o += (char)(0xF0|c>>18); o += (char)(0x80|(c>>12&63)); o += (char)(0x80|(c>>6&63)); o += (char)(0x80|(c&63)); }
}
inline std::string enc(const U& u) { std::string o; for (char32_t c : u) put(o, c); return o; }
inline std::string enc(char32_t c) { std::string o; put(o, c); return o; }
// decode known-valid text
inline U dec(const std::string& s)
{
	U u;
	for (size_t i = 0; i < s.size(); ) {
		unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
		char32_t v = n == 1 ? c : c & (0xFF >> (n+1));
		for (int k = 1; k < n && i+k < s.size(); k++) v = v<<6 | (s[i+k]&63);
		u += v; i += n;
	}
	return u;
}
}
