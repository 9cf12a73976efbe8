// Stand-in for google/crc32c (not installed here): the same function, table driven.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <string_view>
namespace crc32c
{
    namespace detail
    {
        constexpr std::array<uint32_t, 256> make_table()
        {
            std::array<uint32_t, 256> t{};
            for (uint32_t i = 0; i < 256; ++i)
            {
                uint32_t c = i;
                for (int k = 0; k < 8; ++k) c = (c & 1) ? (c >> 1) ^ 0x82F63B78u : c >> 1;
                t[i] = c;
            }
            return t;
        }
        inline constexpr auto table = make_table();
    }  // namespace detail
    inline uint32_t Extend(uint32_t crc, const uint8_t* data, size_t n)
    {
        crc = ~crc;
        for (size_t i = 0; i < n; ++i) crc = detail::table[(crc ^ data[i]) & 0xFF] ^ (crc >> 8);
        return ~crc;
    }
    inline uint32_t Crc32c(const uint8_t* data, size_t n) { return Extend(0, data, n); }
    inline uint32_t Crc32c(const char* data, size_t n) { return Extend(0, reinterpret_cast<const uint8_t*>(data), n); }
    inline uint32_t Crc32c(std::string_view s) { return Crc32c(s.data(), s.size()); }
}  // namespace crc32c
