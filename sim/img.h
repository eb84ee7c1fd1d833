// Data files made of collections, shared by the scenarios.
#pragma once
#include "scn.h"
namespace img {
typedef std::vector<uint8_t> Bytes;
struct Coll { bool fixed; uint32_t elem; uint32_t n; uint32_t head, start, len; std::vector<uint32_t> off, size; }; // off relative to start
struct Image { Bytes b; std::vector<Coll> c; };
static inline void put32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static inline void set32(Bytes &b, size_t at, uint32_t v) { for (int i = 0; i < 4; i++) b[at + (size_t)i] = (uint8_t)(v >> (8 * i)); }
// appends a collection of n fixed items of `elem` bytes (elem 0: n strings)
static inline Coll &add(Image &im, Rng &r, uint32_t elem, uint32_t n, uint32_t maxStr = 40) {
	Coll c; c.fixed = elem != 0; c.elem = elem; c.n = n; c.head = (uint32_t)im.b.size();
	put32(im.b, 0); c.start = (uint32_t)im.b.size();
	for (uint32_t i = 0; i < n; i++) {
		c.off.push_back((uint32_t)im.b.size() - c.start);
		if (elem) { for (uint32_t k = 0; k < elem; k++) im.b.push_back((uint8_t)r.next()); c.size.push_back(elem); }
		else {
			uint32_t l = (uint32_t)r.below(maxStr); if (r.chance(1, 30)) l = (uint32_t)r.below(r.chance(1, 40) ? 32000 : maxStr * 20);
			im.b.push_back((uint8_t)(l + 1)); im.b.push_back((uint8_t)((l + 1) >> 8));
			for (uint32_t k = 0; k < l; k++) im.b.push_back((uint8_t)('a' + r.below(26)));
			im.b.push_back(0); c.size.push_back(2 + l + 1);
		}
	}
	c.len = (uint32_t)im.b.size() - c.start; set32(im.b, c.head, c.len);
	im.c.push_back(c); return im.c.back();
}
// a collection of the given strings
static inline Coll &addStrings(Image &im, const std::vector<std::string> &v) {
	Coll c; c.fixed = false; c.elem = 0; c.n = (uint32_t)v.size(); c.head = (uint32_t)im.b.size(); put32(im.b, 0); c.start = (uint32_t)im.b.size();
	for (auto &s : v) { c.off.push_back((uint32_t)im.b.size() - c.start); uint32_t l = (uint32_t)s.size() + 1; im.b.push_back((uint8_t)l); im.b.push_back((uint8_t)(l >> 8)); for (char ch : s) im.b.push_back((uint8_t)ch); im.b.push_back(0); c.size.push_back(2 + l); }
	c.len = (uint32_t)im.b.size() - c.start; set32(im.b, c.head, c.len); im.c.push_back(c); return im.c.back();
}
// a collection of fixed items with the given bytes
static inline Coll &addFixed(Image &im, uint32_t elem, const Bytes &data) {
	Coll c; c.fixed = true; c.elem = elem; c.n = (uint32_t)(data.size() / elem); c.head = (uint32_t)im.b.size(); put32(im.b, (uint32_t)data.size()); c.start = (uint32_t)im.b.size();
	im.b.insert(im.b.end(), data.begin(), data.end()); for (uint32_t i = 0; i < c.n; i++) { c.off.push_back(i * elem); c.size.push_back(elem); } c.len = (uint32_t)data.size(); im.c.push_back(c); return im.c.back();
}
// storage kinds
enum { MEM, LOADED, PART_CACHE, PART_FILE, CACHED, STREAM, KINDS };
static inline const char *kindName(int k) { static const char *n[] = {"memory", "loaded from file", "part loaded, rest cached", "part loaded, rest streamed", "cached", "streamed"}; return n[k % KINDS]; }
}
