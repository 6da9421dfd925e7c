// Random use of the buffered binary writer: buffers of all sizes, values of all sizes, against the bytes asked for.
#pragma once
#include <bit>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <sstream>
#include "h.hpp"
#include "queso/io/binary_buffer_writer.hpp"
namespace wr {
inline std::string exercise(h::Rng& r, const std::string& path, long* bytes) {
    using W = queso::BinaryBufferWriter;
    std::string want, how;
    const bool big = r.p(.5), dflt = r.p(.1);
    const size_t size = r.p(.3) ? size_t(r.i(1, 16)) : size_t(r.i(17, 300));
    auto put = [&](const auto& v) {
        char b[sizeof v]; std::memcpy(b, &v, sizeof v);
        if (big != (std::endian::native == std::endian::big)) std::reverse(b, b + sizeof v);
        want.append(b, sizeof v);
    };
    {
        std::ofstream f(path, std::ios::binary);
        auto run = [&](W& w) {
            const int n = r.i(0, dflt ? 2000 : 200);
            const bool flush = r.p(.5);
            for (int k = 0; k < n; ++k) switch (r.i(0, 8)) {
                case 0: { const auto v = std::uint8_t(r.next()); w.WriteValue(v); put(v); break; }
                case 1: { const auto v = std::uint16_t(r.next()); w.WriteValue(v); put(v); break; }
                case 2: { const auto v = std::uint32_t(r.next()); w.WriteValue(v); put(v); break; }
                case 3: { const auto v = std::uint64_t(r.next()); w.WriteValue(v); put(v); break; }
                case 4: { const auto v = float(r.u(-1e3, 1e3)); w.WriteValue(v); put(v); break; }
                case 5: { const auto v = r.u(-1e3, 1e3); w.WriteValue(v); put(v); break; }
                case 6: { double v[3]; for (auto& x : v) x = r.u(-1, 1); w.WriteArray(v); for (auto& x : v) put(x); break; }
                case 7: { const int v[5] = { r.i(-9, 9), r.i(-9, 9), 0, 1, r.i(-9, 9) }; w.WriteArray(v); for (auto& x : v) put(x); break; }
                default: { std::string t(size_t(r.i(0, int(2 * size) + 3)), ' '); for (auto& c : t) c = char(r.i(0, 255)); w.WriteRaw(t.data(), t.size()); want += t; if (r.p(.2)) w.Flush(); }
            }
            if (flush) w.Flush();
        };
        if (dflt) { W w(f, big ? W::EndianType::big : W::EndianType::little); run(w); }
        else { W w(f, big ? W::EndianType::big : W::EndianType::little, size); run(w); }
    }
    std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf();
    std::remove(path.c_str());
    const std::string got = ss.str();
    *bytes += long(got.size());
    if (got == want) return "";
    size_t at = 0; while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
    return "buffer of " + std::to_string(dflt ? 1ul << 20 : size) + (big ? " big" : " little") + " endian: " + std::to_string(got.size()) + " bytes of " + std::to_string(want.size()) + ", first difference at " + std::to_string(at);
}
}
