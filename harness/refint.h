// An independent reading of the documentation of StrVal::asInt32
#pragma once
#include <string>
#include <char_encoding.h>
static bool is_white(char32_t c) { return UCS4IsWhite(c); }
static int digit_of(char32_t c, int radix)
{
	int d = -1;
	if (c >= '0' && c <= '9') d = c-'0';
	else if (c >= 'a' && c <= 'z') d = c-'a'+10;
	else if (c >= 'A' && c <= 'Z') d = c-'A'+10;
	else if (c >= 0x660 && c <= 0x669) d = c-0x660;		// Arabic-Indic
	else if (c >= 0x966 && c <= 0x96F) d = c-0x966;		// Devanagari
	else if (c >= 0xFF10 && c <= 0xFF19) d = c-0xFF10;	// Fullwidth
	return d < radix ? d : -1;
}
enum { OK, TRAIL, NODIGITS, OVERFLOW_, NOTNUM, RADIX };
static int ref_int(const std::u32string& u, int radix, int32_t& val, bool& val_known, size_t& scanned, bool& scanned_known)
{
	size_t n = u.size(), i = 0; val = 0; val_known = true; scanned_known = true; scanned = 0;
	if (radix < 0 || radix > 36) return RADIX;
	while (i < n && is_white(u[i])) i++;
	if (i == n) { scanned = i; return NODIGITS; }
	bool neg = false;
	if (u[i] == '+' || u[i] == '-') { neg = u[i] == '-'; i++; while (i < n && is_white(u[i])) i++; if (i == n) { scanned = i; return NODIGITS; } }
	if (radix == 0 || radix == 2 || radix == 16) {
		if (digit_of(u[i], 10) == 0 && i+1 < n) {
			char32_t c = u[i+1];
			if ((c == 'b' || c == 'B') && (radix == 0 || radix == 2)) { radix = 2; i += 2; if (i == n) { scanned = i; return NODIGITS; } }
			else if ((c == 'x' || c == 'X') && (radix == 0 || radix == 16)) { radix = 16; i += 2; if (i == n) { scanned = i; return NODIGITS; } }
			else if (radix == 0) radix = 8;
		} else if (radix == 0) radix = 10;
	}
	if (digit_of(u[i], radix) < 0) { scanned = i; return NOTNUM; }
	__int128 v = 0; bool big = false;
	while (i < n && digit_of(u[i], radix) >= 0) { v = v*radix+digit_of(u[i], radix); if (v > ((__int128)1<<63)) { big = true; v = (__int128)1<<63; } i++; }
	while (i < n && is_white(u[i])) i++;
	scanned = i;
	if (v > (__int128)INT32_MAX+(neg ? 1 : 0)) { val_known = false; scanned_known = !big; return OVERFLOW_; }
	val = neg ? -(int64_t)v : (int64_t)v;
	return i == n ? OK : TRAIL;
}
