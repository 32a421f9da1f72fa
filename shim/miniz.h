/* Stand-in for the (not vendored) miniz dependency: the same API on top of zlib. */
#pragma once
#include <zlib.h>
typedef unsigned long mz_ulong;
enum { MZ_OK = 0, MZ_BUF_ERROR = -5, MZ_DATA_ERROR = -3 };
static inline int mz_uncompress(unsigned char* d, mz_ulong* dl, unsigned char const* s, mz_ulong sl) {
	uLongf l = *dl;
	int r = uncompress(d, &l, s, sl);
	*dl = l;
	return r;
}
static inline int mz_compress(unsigned char* d, mz_ulong* dl, unsigned char const* s, mz_ulong sl) {
	uLongf l = *dl;
	int r = compress(d, &l, s, sl);
	*dl = l;
	return r;
}
static inline mz_ulong mz_compressBound(mz_ulong n) { return compressBound(n); }
