// The original C++ codec (gfwx.hpp, an unmodified copy of /repo/reference_app/gfwx.hpp) behind a C interface.
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <type_traits>
#include <utility>
#include <vector>

// bufferSize() compares floating-point logarithms only to detect sizes of 2^64 bytes and more; none occur here.
namespace std {
inline int ref_log(size_t v) {
	int n = 0;
	while (v >>= 1) {
		++n;
	}
	return n;
}
}
#define log ref_log
#include "gfwx.hpp"
#undef log

using namespace GFWX;

// as in harness/src/program.rs
static const int intents[6] = {0, 7, 8, 10, 11, 12};

static Header header(const int64_t *p) {
	return Header(int(p[0]), int(p[1]), int(p[2]), int(p[3]), BitDepthAuto, int(p[7]), int(p[8]), int(p[6]),
	              p[5] == 0 ? FilterLinear : FilterCubic, QuantizationScalar, int(p[4]), intents[(p[0] + p[1] + p[3] + p[7]) % 6]);
}

/// Bytes written, or a negative error. The transform is null or ends with -1.
extern "C" int64_t ref_compress(const int64_t *p, uint8_t *image, const int *transform, uint8_t *out, size_t cap) {
	Header h = header(p);
	return compress(image, h, out, cap, transform, static_cast<uint8_t *>(0), 0);
}

extern "C" int64_t ref_compress_meta(const int64_t *p, uint8_t *image, const int *transform, uint8_t *out, size_t cap, uint8_t *meta, size_t n) {
	Header h = header(p);
	return compress(image, h, out, cap, transform, meta, n);
}

/// What the original returns: 0, the next point of interest, or a negative error.
extern "C" int64_t ref_decompress(const uint8_t *data, size_t n, int d, int test, uint8_t *out) {
	Header h;
	return decompress(out, h, data, n, d, test != 0);
}
