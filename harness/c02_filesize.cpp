// Human readable size: right unit, exact integer part, exact truncated fraction digits, all separators; failure iff it does not fit.
#include "vp.h"
#include <sys/types.h>
#include "convert/convert_int.cpp"
using namespace CubicleSoft;
#ifndef MAXFRAC
#define MAXFRAC 4
#endif
static const char UN[] = { 0, 'K', 'M', 'G', 'T', 'P', 'E' };
extern "C" void vp_main() {
	bool issigned = vp_choice(2);
	unsigned unit = vp_choice(7);
	// fraction digits: 0..MAXFRAC, and one choice far beyond any 64-bit scaling
	unsigned fc = vp_choice(MAXFRAC + 2); size_t frac = fc <= MAXFRAC ? fc : (vp_choice(2) ? 23 : ~(size_t)0 - vp_choice(3));
	uint64_t num = vp_u64(), mag = num; bool neg = false;
	if (issigned && vp_split((int64_t)num < 0)) { neg = true; mag = 0 - num; }
	// which unit: strict thresholds without fraction, 1000 of the previous unit with (but 1024 bytes for KB)
	uint64_t div = 1ULL << (10 * unit), lo, hi;
	if (!frac) { lo = unit ? div : 0; hi = unit < 6 ? (div << 10) - 1 : ~0ULL; }
	else { lo = unit == 0 ? 0 : unit == 1 ? 1024 : (div >> 10) * 1000; hi = unit == 0 ? 1023 : unit == 6 ? ~0ULL : div * 1000 - 1; }
	vp_assume(mag >= lo && mag <= hi);
	size_t nf = unit < 2 ? 0 : frac;
	char ns = vp_choice(2) ? (char)vp_u8() : 0, us = vp_choice(2) ? (char)vp_u8() : 0, ds = (char)vp_u8();
	bool hasns = vp_split(ns != 0), hasus = vp_split(us != 0);
	static const char *units[] = { "bytes", "", "B", "Bytes long" };
	const char *bu = unit == 0 ? units[vp_choice(4)] : (vp_choice(2) ? "" : "bytes");
	char exp[200]; size_t len = 0;
	if (neg) exp[len++] = '-';
	uint64_t ip = mag / div; char d[8]; unsigned k = 0;
	do { d[k++] = '0' + (char)(ip % 10); ip /= 10; } while (ip);
	for (unsigned i = k; i-- > 0;) { exp[len++] = d[i]; if (hasns && i && i % 3 == 0) exp[len++] = ns; }
	bool never = nf > 100;
	if (nf && !never) { exp[len++] = ds; uint64_t r = mag % div; for (size_t i = 0; i < nf; i++) { r *= 10; exp[len++] = '0' + (char)(r / div); r %= div; } }
	if (hasus) exp[len++] = us;
	if (unit) { exp[len++] = UN[unit]; exp[len++] = 'B'; } else for (const char *p = bu; *p; p++) exp[len++] = *p;
	exp[len++] = 0;
	size_t minsize = 5 + strlen(bu) + (neg ? 1 : 0);   // documented floor of the function: refuses smaller buffers outright
	static const int delta[] = { 0, -1, 1, 40, -2, -3, -4, -5 };
	size_t size = len + delta[vp_choice(nf > 100 ? 4 : 8)]; if ((ssize_t)size < 0) vp_end();
	if (size < minsize && vp_choice(2)) size = minsize;
	char *buf = new char[size];
	bool r = issigned ? Convert::Int::ToFilesizeString(buf, size, (int64_t)num, frac, ns, ds, us, bu) : Convert::Int::ToFilesizeString(buf, size, num, frac, ns, ds, us, bu);
	if (never || size < len) { vp_assert(!r, "ToFilesizeString reports success although the text does not fit"); vp_cover("toosmall"); }
	else {
		if (size >= minsize) { vp_assert(r, "ToFilesizeString fails although the text fits"); vp_cover("fits"); }
		if (r) for (size_t i = 0; i < len; i++) vp_assert(buf[i] == exp[i], "ToFilesizeString text differs from the exact representation");
	}
	delete[] buf;
}
