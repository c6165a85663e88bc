// C05: deserializer consumes its buffer exactly, in order, within bounds.
// Oracle: an independent cursor over the same bytes; addresses of returned views; position unchanged after a throw.
#define VH_MAIN
#include "vh.hpp"

#include <utki/span.hpp>
#include <utki/utility.hpp>
#include <utki/deserializer.hpp>

using namespace vh;

static u64 ref(const u8* p, size_t n, bool be)
{
	u64 v = 0;
	for (size_t i = 0; i != n; ++i) {
		v = v * 256 + p[be ? i : n - 1 - i];
	}
	return v;
}
static u64 fbits(float f)
{
	u32 b;
	memcpy(&b, &f, 4);
	return b;
}

SUITE(sequences, 9000, 0, "random sequences of reads/skips with exact, short, zero, too long and huge lengths; non-trivial when at least one read succeeded and one was rejected, or the buffer was read to its end")
{
	auto& r = c.r;
	size_t n = r.chance(1, 20) ? r.range(65536, 140000) : r.size(r.chance(1, 30) ? 70000 : 300);
	auto v = r.bytes_vec(n);
	exact<u8> e(v.data(), n, r.below(8));
	const u8* base = e.data();
	utki::deserializer d(n == 0 && r.coin() ? utki::span<const u8>() : utki::span<const u8>(base, n));
	size_t pos = 0;
	size_t ok = 0, rejected = 0;
	size_t steps = r.range(1, 60);
	std::string log;
	for (size_t i = 0; i != steps; ++i) {
		size_t left = n - pos;
		auto op = r.below(12);
		size_t len = 0;
		static const size_t edges[] = {65535, 65536, 32767, 32768, 65537, 256, 255, 127, 128, 4, 8, 16};
		switch (r.below(7)) {
			case 6: // around powers of two, when there are that many
				for (auto x : edges) {
					if (x <= left && r.chance(1, 2)) {
						len = x;
						break;
					}
				}
				break;
			case 0: len = 0; break;
			case 1: len = left; break;
			case 2: len = left + r.range(1, 3); break;
			case 3: len = r.below(left + 1); break;
			case 4: len = r.below(left / 8 + 2); break;
			default: {
				static const size_t big[] = {size_t(-1), size_t(-2), size_t(-1) / 2, size_t(-1) / 2 + 1, size_t(1) << 32, (size_t(1) << 32) - 1};
				len = r.coin() ? r.pick(big) : size_t(0) - r.below(left + 5);
				break;
			}
		}
		static const size_t fixed_size[] = {1, 2, 4, 8, 2, 4, 8, 4, 4};
		size_t need = op < 9 ? fixed_size[op] : len;
		if (log.size() < 160) {
			log += str("op", op, "(", need, ")@", pos, " ");
		}
		note(log);
		bool threw = false;
		u64 got = 0;
		std::string_view sv;
		utki::span<const u8> sp;
		try {
			switch (op) {
				case 0: got = d.read_uint8(); break;
				case 1: got = d.read_uint16_le(); break;
				case 2: got = d.read_uint32_le(); break;
				case 3: got = d.read_uint64_le(); break;
				case 4: got = d.read_uint16_be(); break;
				case 5: got = d.read_uint32_be(); break;
				case 6: got = d.read_uint64_be(); break;
				case 7: got = fbits(d.read_float_le()); break;
				case 8: got = fbits(d.read_float_be()); break;
				case 9: sv = d.read_string(len); break;
				case 10: sp = d.read_span(len); break;
				default: d.skip(len); break;
			}
		} catch (const std::invalid_argument&) {
			threw = true;
		}
		CHECK("rejects-exactly", threw == (need > left), "op ", op, " of ", need, " bytes with ", left, " left: threw=", threw, " history ", log);
		if (!threw) {
			const u8* at = base + pos;
			switch (op) {
				case 0: CHECK_EQ("u8", got, u64(*at), log); break;
				case 1: CHECK_EQ("u16le", got, ref(at, 2, false), log); break;
				case 2: CHECK_EQ("u32le", got, ref(at, 4, false), log); break;
				case 3: CHECK_EQ("u64le", got, ref(at, 8, false), log); break;
				case 4: CHECK_EQ("u16be", got, ref(at, 2, true), log); break;
				case 5: CHECK_EQ("u32be", got, ref(at, 4, true), log); break;
				case 6: CHECK_EQ("u64be", got, ref(at, 8, true), log); break;
				case 7: CHECK_EQ("floatle", got, ref(at, 4, false), log); break;
				case 8: CHECK_EQ("floatbe", got, ref(at, 4, true), log); break;
				case 9:
					CHECK_EQ("string-size", sv.size(), len, log);
					CHECK("string-address", len == 0 || (const void*)(sv.data()) == (const void*)(at), "the returned view does not refer to the next bytes; ", log);
					break;
				case 10:
					CHECK_EQ("span-size", sp.size(), len, log);
					CHECK("span-address", len == 0 || sp.data() == at, "the returned span does not refer to the next bytes; ", log);
					break;
				default: break;
			}
			pos += need;
			++ok;
			COUNT("reads.ok");
		} else {
			++rejected;
			COUNT("reads.rejected");
		}
		CHECK_EQ("size", d.size(), n - pos, "after ", log);
		CHECK_EQ("empty", d.empty(), n == pos, "after ", log);
		if (r.chance(1, 20)) { // a copy is an independent cursor
			auto d2 = d;
			if (!d2.empty()) {
				CHECK_EQ("copy", u64(d2.read_uint8()), u64(base[pos]), log);
				CHECK_EQ("copy-size", d.size(), n - pos, log);
			}
		}
	}
	// what is left is exactly the tail
	auto tail = d.read_span(d.size());
	CHECK("tail", tail.size() == n - pos && (tail.empty() || tail.data() == base + pos), "the rest is not the unread tail; ", log);
	CHECK("tail-empty", d.empty() && d.size() == 0, "");
	CHECK_THROWS("past-end", std::invalid_argument, d.read_uint8(), "at the end");
	c.nt((ok && rejected) || pos == n);
	SAMPLE("buffer ", n, " bytes: ", log);
}

SUITE(vast_buffer, 6, fixed | nofuzz | novg, "reads and skips over a buffer of more than 4 GiB; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	vast m;
	if (!m.ok()) {
		return;
	}
	u8* base = m.as<u8>();
	const size_t n = vast::num_bytes;
	// something to read at some places
	for (size_t k = 0; k != 64; ++k) {
		for (size_t j = 0; j != 16; ++j) {
			base[k * (n / 64) + j] = u8(k * 16 + j + 1);
		}
	}
	for (int round = 0; round != 10; ++round) {
		utki::deserializer d(utki::span<const u8>(base, n));
		size_t pos = 0;
		CHECK("vast-size", d.size() == n && !d.empty(), d.size());
		while (pos != n) {
			size_t left = n - pos;
			size_t len = r.below(3) == 0 ? left : r.below(2) == 0 ? r.below(left + 1) : (n / 64) * r.below(left / (n / 64) + 1);
			std::string did;
			switch (r.below(3)) {
				case 0:
					d.skip(len);
					did = "skip";
					break;
				case 1: {
					auto s = d.read_span(len);
					CHECK("vast-span", s.size() == len && s.data() == base + pos, "read_span(", len, ") at ", pos, " gave ", s.size());
					did = "read_span";
					break;
				}
				default: {
					auto s = d.read_string(len);
					CHECK("vast-string", s.size() == len && s.data() == reinterpret_cast<const char*>(base + pos), "read_string(", len, ") at ", pos, " gave ", s.size());
					did = "read_string";
					break;
				}
			}
			pos += len;
			CHECK("vast-left", d.size() == n - pos && d.empty() == (pos == n), did, " of ", len, " left ", d.size(), " expected ", n - pos);
			if (n - pos >= 15) {
				auto v = d.read_uint64_le();
				auto w = d.read_uint32_be();
				auto x = d.read_uint16_le();
				auto y = d.read_uint8();
				CHECK("vast-values", v == ref(base + pos, 8, false) && w == ref(base + pos + 8, 4, true) && x == ref(base + pos + 12, 2, false) && y == base[pos + 14], "at ", pos);
				pos += 15;
			}
			bool threw = false;
			try {
				d.skip(n - pos + 1);
			} catch (const std::invalid_argument&) {
				threw = true;
			}
			CHECK("vast-rejected", threw && d.size() == n - pos, "at ", pos);
		}
	}
	COUNT("vast buffers");
}
