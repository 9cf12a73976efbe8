// C13/C14: the real RESP parser fed in arbitrary pieces; histories for spec/RespTrace.tla
#include "kio/resp/parser.h"
#include "ksim.h"
#include <memory>
#include <string>
#include <vector>
using namespace kio::resp;
namespace
{
    const char* kind(ParseError e)
    {
        switch (e)
        {
            case ParseError::NeedMoreData: return "NeedMoreData";
            case ParseError::MalformedFrame: return "MalformedFrame";
            case ParseError::Atoi: return "Atoi";
            case ParseError::MaxDepthReached: return "MaxDepthReached";
            case ParseError::SizeOverflow: return "SizeOverflow";
            case ParseError::EoIter: return "EoIter";
            default: return "Unknown";
        }
    }
    std::string arr(std::string_view s)
    {
        std::string o = "[";
        for (size_t i = 0; i < s.size(); ++i)
        {
            if (i) o += ',';
            o += std::to_string((unsigned) (uint8_t) s[i]);
        }
        return o + "]";
    }
    size_t R(size_t n) { return ksim::rnd(n); }
    const std::string NL = "\r\n";
    std::string num(int64_t v) { return std::to_string(v); }

    std::string junkline(size_t n)
    {
        static const char A[] = "ab01-+.:\r\n$*e ";
        std::string s;
        for (size_t i = 0; i < n; ++i) s += A[R(sizeof A - 1)];
        return s;
    }
    std::string pick(std::initializer_list<const char*> l) { return *(l.begin() + R(l.size())); }
    std::string payload(size_t maxlen)
    {
        static const char A[] = "ab\r\n$*:1";
        std::string s;
        for (size_t n = R(maxlen + 1); n; --n) s += A[R(sizeof A - 1)];
        return s;
    }
    std::string value(int depth, size_t maxbulk);
    std::string leaf(size_t maxbulk)
    {
        switch (R(12))
        {
            case 0: return "+" + pick({"OK", "", "a b", "x:1"}) + NL;
            case 1: return "-" + pick({"ERR x", "", "E"}) + NL;
            case 2: return ":" + pick({"0", "-1", "12", "9223372036854775807", "-9223372036854775808", "+5", "-0", "+9223372036854775807"}) + NL;
            case 3: return "_" + NL;
            case 4: return "#" + pick({"t", "f"}) + NL;
            case 5: return "," + pick({"1.5", "-2", "inf", "-inf", "+inf", "nan", "1e5", "1.5E-3", "+0.25", "10", "0.0"}) + NL;
            case 6: return "(" + pick({"1", "-123456789012345678901234567890", "+7", "0"}) + NL;
            case 7: return "$-1" + NL;
            case 8: { auto p = "txt:" + payload(6); return "=" + num(p.size()) + NL + p + NL; }
            case 9: { auto p = payload(8); return "!" + num(p.size()) + NL + p + NL; }
            default: { auto p = payload(std::min<size_t>(maxbulk, 12)); return "$" + num(p.size()) + NL + p + NL; }
        }
    }
    std::string value(int depth, size_t maxbulk)
    {
        if (depth <= 0 || R(3) == 0) return leaf(maxbulk);
        char t = "*%~>|"[R(5)];
        size_t n = R(4);
        std::string s = std::string(1, t) + num(n) + NL;
        for (size_t i = 0; i < n * (t == '%' || t == '|' ? 2 : 1); ++i) s += value(depth - 1 - (int) R(2), maxbulk);
        return s;
    }
    std::string nest(int d)
    {
        std::string s;
        for (int i = 0; i < d; ++i) s += pick({"*1", "~1", ">1", "%1", "|1"}) + NL;
        return s + (R(2) ? leaf(5) : R(2) ? "*0\r\n" : "");
    }
    std::string bad(size_t maxbulk)
    {
        switch (R(17))
        {
            case 0: return pick({"@", "?", "x", " ", "\r", "\n", "0"}) + junkline(R(4)) + NL;
            case 1: return ":" + pick({"", "x", "1x", "9223372036854775808", "-9223372036854775809", "99999999999999999999", "-", "+", "1 ", " 1", "0x1", "--1", "+-1", "-+1", "++1", "1.0"}) + NL;
            case 2: return "#" + pick({"", "x", "tt", "T", "ft", "t ", "1"}) + NL;
            case 3: return "," + pick({"", "x", "1.2.3", "e5", "1e", "-", "+", "+-1", "++1", "1,5", "inff", "1x", "0x10", ".", "-+inf"}) + NL;
            case 4: return "(" + pick({"", "-", "+", "1a", "1.0", "--1", " 1", "1 "}) + NL;
            case 5: return pick({"$", "!", "="}) + pick({"", "x", "-2", "1x", "-", "99999999999999999999", "1.0", " 1", "-1x"}) + NL + payload(5) + NL;
            case 6: return pick({"*", "%", "~", ">", "|"}) + pick({"", "x", "-1", "-2", "1x", "99999999999999999999", "?"}) + NL + leaf(3);
            case 7: { auto p = payload(6); return "$" + num(p.size()) + NL + p + pick({"ab", "\r\r", "\n\r", "\rx", "x\n", "\n\n"}); }
            case 8: return "$" + num(maxbulk + 1 + R(3)) + NL + payload(4);
            case 9: return "$" + pick({"9223372036854775807", "9223372036854775800", "2147483648", "1000000000000"}) + NL;
            case 10: return "_" + pick({"x", "0", " "}) + NL;
            case 11: { auto p = payload(6); return "$" + num(p.size() + (R(2) ? 1 : -1) * (p.size() ? 1 : 0)) + NL + p + NL; }
            case 12: return pick({"$007", "$+3", "$-0", "$00"}) + NL + payload(7) + NL;
            case 13: return pick({"*02", "*+1", "*-0"}) + NL + leaf(3) + leaf(3);
            case 14: return pick({":007", ":-07", ",.5", ",5.", ",INF", ",infinity", ",nan(1)", ",1e999", ",01"}) + NL;
            case 15: return pick({"!-1", "=-1", "=3\r\nabc", "=0\r\n"}) + NL;
            default: return pick({"+", "-"}) + pick({"a\nb", "a\rb", "\n", "\r\r"}) + NL;
        }
    }
    std::string stream(int depth, size_t maxbulk, int mode)
    {
        std::string s;
        int n = 1 + (int) R(4);
        for (int i = 0; i < n; ++i)
        {
            int k = mode == 0 ? 9 : (int) R(10);
            if (k < 2) s += bad(maxbulk);
            else if (k == 2) s += nest(depth + (int) R(4) - 1);
            else if (k == 3) { auto v = value(3, maxbulk); v.resize(R(v.size() + 1)); s += v; }
            else if (k == 4) { auto v = value(2, maxbulk); if (!v.empty()) v[R(v.size())] = "\r\n0129-+:$*ax"[R(13)]; s += v; }
            else if (k == 5) s += pick({"*2", "%1", "~1", ">2", "|1"}) + NL + (R(2) ? bad(maxbulk) : leaf(maxbulk) + bad(maxbulk));
            else s += value(std::max(0, std::min(depth, 3)), maxbulk);
        }
        if (mode == 2) { s = junkline(R(30)); }
        if (s.size() > 160) s.resize(160);
        return s;
    }
    void kids(Parser& p, const FrameHeader& f, const char* base)
    {
        std::string ch;
        std::vector<FrameHeader> sub;
        FrameIterator it(f, p);
        const char* end = "none";
        for (int guard = 0; guard < 400; ++guard)
        {
            size_t left = it.remaining();
            if (it.has_next() != (left > 0)) ksim::bad("has_next");
            auto c = it.next();
            if (!c)
            {
                end = kind(c.error());
                break;
            }
            char b[120];
            snprintf(b, sizeof b, "%s[%d,%lld,%llu,%llu,%zu]", ch.empty() ? "" : ",", (int) c->type, (long long) (c->data - base + 1), (unsigned long long) c->size, (unsigned long long) c->element_count, left);
            ch += b;
            sub.push_back(*c);
        }
        ksim::ev("\"e\":\"kids\",\"at\":%lld,\"n\":%zu,\"ch\":[%s],\"end\":\"%s\",\"left\":%zu", (long long) (f.data - base), f.size, ch.c_str(), end, it.remaining());
        for (auto& c: sub) if (strchr("*%~>|", (char) c.type)) kids(p, c, base);
    }
    // one way of feeding the stream; returns nothing: everything observable is in the history
    void pass(const std::string& s, const ParserConfig& cfg, int style)
    {
        ksim::ev("\"e\":\"pass\"");
        ParserConfig c = cfg;
        c.initial_buffer = style == 0 ? s.size() : R(2) ? s.size() + R(20) : R(9);   // style 0: the bytes end exactly at the buffer's end
        Parser p(c);
        size_t at = 0;
        bool dead = false;
        int after = 0;
        while (at < s.size())
        {
            size_t n = style == 0 ? s.size() : style == 1 ? 1 : 1 + R(R(2) ? 4 : 40);
            n = std::min(n, s.size() - at);
            ksim::ev("\"e\":\"feed\",\"d\":%s", arr(s.substr(at, n)).c_str());
            p.buffer().extend_from_slice({s.data() + at, n});
            at += n;
            // bytes behind the committed ones are not input: put the most tempting continuation there
            auto ws = p.buffer().writable_span();
            static const std::string lure = "\r\n:1\r\n+a\r\n$1\r\na\r\n";
            size_t shift = R(4);
            for (size_t i = 0; i < ws.size() && i < 64; ++i) ws[i] = shift == 3 ? s[(at + i) % s.size()] : lure[(i + shift) % lure.size()];
            for (int guard = 0; guard < 200; ++guard)
            {
                auto f = p.next_frame();
                const char* base = p.buffer().readable_span().data();
                if (!f)
                {
                    if (f.error() == ParseError::NeedMoreData) ksim::ev("\"e\":\"next\",\"v\":\"more\"");
                    else
                    {
                        ksim::ev("\"e\":\"next\",\"v\":\"err\",\"k\":\"%s\"", kind(f.error()));
                        dead = true;
                    }
                    break;
                }
                bool agg = strchr("*%~>|", (char) f->type) && (char) f->type;
                bool simple = strchr("+-:_#,(", (char) f->type);
                if (f->size > p.buffer().remaining()) { ksim::bad("frame-larger-than-data"); return; }
                std::string_view pay = agg ? std::string_view{} : simple ? get_simple_payload(*f) : get_bulk_payload(*f);
                if (pay.size() && (pay.data() < base || pay.data() + pay.size() > base + f->size)) { ksim::bad("payload-outside-frame"); return; }
                ksim::ev("\"e\":\"next\",\"v\":\"frame\",\"ty\":%d,\"n\":%zu,\"cnt\":%zu,\"at\":%lld,\"pay\":%s", (int) f->type, f->size, f->element_count, (long long) (f->data - base), arr(pay).c_str());
                if (agg) kids(p, *f, base);
                if (R(4) == 0) continue;        // asking again without consuming gives the same frame
                if (R(2)) p.consume(*f);
                else p.consume(f->size);
                if (R(4) == 0) p.buffer().compact();
                ksim::ev("\"e\":\"consume\",\"n\":%zu,\"rem\":%zu", f->size, p.buffer().remaining());
            }
            if (dead && ++after > 3) break;
        }
    }
    void scenario(int mode, bool dflt)
    {
        ParserConfig cfg;
        if (!dflt)
        {
            cfg.max_size = R(3) ? 4 + R(12) : R(3);
            cfg.max_aggregate_depth = R(5);
        }
        std::string s = dflt && R(2) ? nest(31 + (int) R(4)) : stream(dflt ? 3 : (int) cfg.max_aggregate_depth, dflt ? (R(4) ? 20 : 512ull * 1024 * 1024) : cfg.max_size, mode);
        if (s.empty()) s = "+\r\n";
        ksim::ev("\"e\":\"init\",\"max\":%zu,\"depth\":%zu", cfg.max_size, cfg.max_aggregate_depth);
        pass(s, cfg, 0);
        if (s.size() < 70) pass(s, cfg, 1);
        pass(s, cfg, 2);
        ksim::ev("\"e\":\"end\"");
    }
}
int main(int argc, char** argv)
{
    return ksim::main(argc, argv, {
        {"valid", [] { scenario(0, false); }, 1},
        {"mixed", [] { scenario(1, false); }, 1},
        {"junk", [] { scenario(2, false); }, 1},
        {"default", [] { scenario(1, true); }, 1},
    });
}
