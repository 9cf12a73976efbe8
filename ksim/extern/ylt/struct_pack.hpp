// Stand-in for yalantinglibs' struct_pack (not installed here), with the part of its interface that
// bitcask uses. Like the original: a four byte type code, fixed size integers, length-prefixed strings
// and vectors; deserialising ignores what follows the object and reports what is missing or wrong.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define YLT_REFL_1(a) x.a
#define YLT_REFL_2(a, b) x.a, x.b
#define YLT_REFL_3(a, b, c) x.a, x.b, x.c
#define YLT_REFL_4(a, b, c, d) x.a, x.b, x.c, x.d
#define YLT_REFL_5(a, b, c, d, e) x.a, x.b, x.c, x.d, x.e
#define YLT_REFL_6(a, b, c, d, e, f) x.a, x.b, x.c, x.d, x.e, x.f
#define YLT_REFL_7(a, b, c, d, e, f, g) x.a, x.b, x.c, x.d, x.e, x.f, x.g
#define YLT_REFL_8(a, b, c, d, e, f, g, h) x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h
#define YLT_REFL_PICK(_1, _2, _3, _4, _5, _6, _7, _8, N, ...) N
#define YLT_REFL_LIST(...) \
    YLT_REFL_PICK(__VA_ARGS__, YLT_REFL_8, YLT_REFL_7, YLT_REFL_6, YLT_REFL_5, YLT_REFL_4, YLT_REFL_3, YLT_REFL_2, YLT_REFL_1)(__VA_ARGS__)
#define YLT_REFL(T, ...)                                                                     \
    inline auto ylt_refl_tie(T& x) { return std::tie(YLT_REFL_LIST(__VA_ARGS__)); }          \
    inline auto ylt_refl_tie(const T& x) { return std::tie(YLT_REFL_LIST(__VA_ARGS__)); }    \
    constexpr uint32_t ylt_refl_code(const T*) { return ::struct_pack::detail::code(#T #__VA_ARGS__); }

namespace struct_pack
{
    namespace detail
    {
        constexpr uint32_t code(std::string_view s)
        {
            uint32_t h = 2166136261u;
            for (char c: s) h = (h ^ static_cast<unsigned char>(c)) * 16777619u;
            return h;
        }

        template<typename F>
        constexpr bool is_container = requires(F& f) { f.resize(1); f.data(); };

        template<typename F>
        size_t field_size(const F& f)
        {
            if constexpr (is_container<F>)
                return 8 + f.size();
            else
                return sizeof(F);
        }

        template<typename Out, typename F>
        void put(Out& out, const F& f)
        {
            auto raw = [&](const void* p, size_t n)
            {
                const auto* c = static_cast<const char*>(p);
                out.insert(out.end(), c, c + n);
            };
            if constexpr (is_container<F>)
            {
                const uint64_t n = f.size();
                raw(&n, 8);
                raw(f.data(), f.size());
            }
            else
                raw(&f, sizeof(F));
        }

        template<typename F>
        int get(const char*& p, size_t& left, F& f)
        {
            if constexpr (is_container<F>)
            {
                uint64_t n;
                if (left < 8) return 1;
                std::memcpy(&n, p, 8);
                p += 8;
                left -= 8;
                if (n > left) return 1;
                f.resize(n);
                if (n > 0) std::memcpy(f.data(), p, n);
                p += n;
                left -= n;
            }
            else
            {
                if (left < sizeof(F)) return 1;
                std::memcpy(&f, p, sizeof(F));
                p += sizeof(F);
                left -= sizeof(F);
            }
            return 0;
        }
    }  // namespace detail

    struct errc
    {
        int ec = 0;
        [[nodiscard]] std::string_view message() const { return ec == 0 ? "ok" : ec == 1 ? "no buffer space" : "invalid buffer"; }
    };

    template<typename T>
    class expected
    {
        T value_{};
        errc error_{};

    public:
        expected(T&& v) : value_(std::move(v)) {}
        expected(errc e) : error_(e) {}
        [[nodiscard]] bool has_value() const { return error_.ec == 0; }
        explicit operator bool() const { return has_value(); }
        T& value() { return value_; }
        const T& value() const { return value_; }
        T& operator*() { return value_; }
        T* operator->() { return &value_; }
        [[nodiscard]] errc error() const { return error_; }
    };

    template<typename T>
    size_t get_needed_size(const T& t)
    {
        size_t n = 4;
        std::apply([&](const auto&... f) { ((n += detail::field_size(f)), ...); }, ylt_refl_tie(t));
        return n;
    }

    template<typename Out, typename T>
    void serialize_to(Out& out, const T& t)
    {
        const uint32_t c = ylt_refl_code(static_cast<const T*>(nullptr));
        detail::put(out, c);
        std::apply([&](const auto&... f) { (detail::put(out, f), ...); }, ylt_refl_tie(t));
    }

    template<typename T>
    std::vector<char> serialize(const T& t)
    {
        std::vector<char> out;
        out.reserve(get_needed_size(t));
        serialize_to(out, t);
        return out;
    }

    template<typename T, typename View>
    expected<T> deserialize(const View& v)
    {
        const char* p = v.data();
        size_t left = v.size();
        uint32_t c = 0;
        if (detail::get(p, left, c)) return errc{1};
        if (c != ylt_refl_code(static_cast<const T*>(nullptr))) return errc{2};
        T t{};
        int ec = 0;
        std::apply([&](auto&... f) { ((ec = ec ? ec : detail::get(p, left, f)), ...); }, ylt_refl_tie(t));
        if (ec) return errc{ec};
        return std::move(t);
    }
}  // namespace struct_pack
