// An independent, strict JSON decoder for oracles
#pragma once
#include "u8.h"
#include <vector>
#include <map>
#include <memory>
// lone: surrogates may be alone, as escapes
static bool json_decode(const std::string& s, std::u32string& out, std::string& why, bool lone = false)
{
	std::u32string in = u8::dec(s); size_t i = 0; out.clear();
	auto hex4 = [&](size_t at, unsigned& v) { v = 0; if (at+4 > in.size()) return false; for (int k = 0; k < 4; k++) { char32_t c = in[at+k]; int d = c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'f' ? c-'a'+10 : c >= 'A' && c <= 'F' ? c-'A'+10 : -1; if (d < 0) return false; v = v<<4|d; } return true; };
	while (i < in.size()) {
		char32_t c = in[i++];
		if (c == '"') { why = "bare quote"; return false; }
		if (c >= 0xD800 && c < 0xE000) { why = "bare surrogate"; return false; }
		if (c < 32) { why = "bare control character"; return false; }
		if (c != '\\') { out += c; continue; }
		if (i >= in.size()) { why = "trailing backslash"; return false; }
		c = in[i++];
		switch (c) {
		case '"': case '\\': case '/': out += c; break;
		case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
		case 'u': {
			unsigned v, w; if (!hex4(i, v)) { why = "bad \\u"; return false; } i += 4;
			if (v >= 0xDC00 && v < 0xE000 && !lone) { why = "lone low surrogate"; return false; }
			if (v >= 0xD800 && v < 0xDC00) {
				if (i+6 > in.size() || in[i] != '\\' || in[i+1] != 'u' || !hex4(i+2, w) || w < 0xDC00 || w > 0xDFFF) { if (lone) { out += (char32_t)v; break; } why = "lone high surrogate"; return false; }
				i += 6; v = 0x10000+((v-0xD800)<<10)+(w-0xDC00);
			}
			out += (char32_t)v; break;
		}
		default: why = "bad escape"; return false;
		}
	}
	return true;
}

struct JV {
	enum T { Null, Num, Str, Arr, Obj } t = Null;
	std::string num; std::u32string str; std::vector<JV> arr; std::vector<std::pair<std::u32string,JV>> obj;
};
// Parses one value; reports the whitespace outside strings in ws
struct JParser {
	const std::string& s; size_t i = 0; std::string why; std::string ws;
	JParser(const std::string& t) : s(t) {}
	void sp() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ws += s[i++]; }
	bool string(std::u32string& o)
	{
		size_t b = ++i; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') i++; i++; }
		if (i >= s.size()) { why = "unterminated string"; return false; }
		bool r = json_decode(s.substr(b, i-b), o, why); i++; return r;
	}
	bool value(JV& v, int depth = 0)
	{
		sp(); if (i >= s.size() || depth > 200) { why = "no value"; return false; }
		char c = s[i];
		if (c == '"') { v.t = JV::Str; return string(v.str); }
		if (c == 'n') { if (s.compare(i,4,"null")) { why = "bad word"; return false; } i += 4; v.t = JV::Null; return true; }
		if (c == '-' || (c >= '0' && c <= '9')) {
			size_t b = i; if (c == '-') i++;
			size_t d = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++;
			if (i == d || (s[d] == '0' && i-d > 1)) { why = "bad number"; return false; }
			v.t = JV::Num; v.num = s.substr(b, i-b); return true;
		}
		if (c == '[') {
			v.t = JV::Arr; i++; sp(); if (i < s.size() && s[i] == ']') { i++; return true; }
			for (;;) {
				v.arr.emplace_back(); if (!value(v.arr.back(), depth+1)) return false;
				sp(); if (i >= s.size()) { why = "unterminated array"; return false; }
				if (s[i] == ']') { i++; return true; }
				if (s[i++] != ',') { why = "no comma"; return false; }
			}
		}
		if (c == '{') {
			v.t = JV::Obj; i++; sp(); if (i < s.size() && s[i] == '}') { i++; return true; }
			for (;;) {
				sp(); v.obj.emplace_back(); if (i >= s.size() || s[i] != '"') { why = "no key"; return false; }
				if (!string(v.obj.back().first)) return false;
				sp(); if (i >= s.size() || s[i++] != ':') { why = "no colon"; return false; }
				if (!value(v.obj.back().second, depth+1)) return false;
				sp(); if (i >= s.size()) { why = "unterminated object"; return false; }
				if (s[i] == '}') { i++; return true; }
				if (s[i++] != ',') { why = "no comma"; return false; }
			}
		}
		why = "unexpected character"; return false;
	}
	bool all(JV& v) { if (!value(v)) return false; sp(); if (i != s.size()) { why = "text after the value"; return false; } return true; }
};
