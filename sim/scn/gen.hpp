// Workload generators and small reference functions shared by scenarios (Host code).
#pragma once
#include "ns.hpp"

inline bool ref_valid_utf8(const std::string &s) {
    size_t i = 0, n = s.size();
    auto b = [&](size_t k) { return (unsigned char)s[k]; };
    auto cont = [&](size_t k) { return k < n && (b(k) & 0xC0) == 0x80; };
    while(i < n) {
        unsigned c = b(i);
        if(c < 0x80) {
            ++i;
        } else if(c >= 0xC2 && c <= 0xDF) {
            if(!cont(i + 1)) return false;
            i += 2;
        } else if(c >= 0xE0 && c <= 0xEF) {
            if(!cont(i + 1) || !cont(i + 2)) return false;
            if(c == 0xE0 && b(i + 1) < 0xA0) return false;
            if(c == 0xED && b(i + 1) > 0x9F) return false;
            i += 3;
        } else if(c >= 0xF0 && c <= 0xF4) {
            if(!cont(i + 1) || !cont(i + 2) || !cont(i + 3)) return false;
            if(c == 0xF0 && b(i + 1) < 0x90) return false;
            if(c == 0xF4 && b(i + 1) > 0x8F) return false;
            i += 4;
        } else
            return false;
    }
    return true;
}
// what the library's text strings can hold
inline bool ref_text(const std::string &s) { return s.find('\0') == s.npos && ref_valid_utf8(s); }
inline void put_cp(std::string &s, uint32_t c) {
    if(c < 0x80)
        s += (char)c;
    else if(c < 0x800) {
        s += (char)(0xC0 | c >> 6);
        s += (char)(0x80 | (c & 63));
    } else if(c < 0x10000) {
        s += (char)(0xE0 | c >> 12);
        s += (char)(0x80 | (c >> 6 & 63));
        s += (char)(0x80 | (c & 63));
    } else {
        s += (char)(0xF0 | c >> 18);
        s += (char)(0x80 | (c >> 12 & 63));
        s += (char)(0x80 | (c >> 6 & 63));
        s += (char)(0x80 | (c & 63));
    }
}
inline uint32_t gen_cp() {
    switch(pick(8)) {
    case 0:
    case 1:
    case 2: return 'a' + pick(26);
    case 3: {
        static const uint32_t edge[] = {0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0x10ffff, 1, ' '};
        return edge[pick(16)];
    }
    case 4: return 0xC0 + pick(0x180);
    case 5: return 0x20AC + pick(64);
    case 6: return 0x1F600 + pick(64);
    default: return " \n\t,.;-0123456789"[pick(17)];
    }
}
inline std::string gen_utf8(int maxcp) {
    std::string s;
    int n = pick(maxcp + 1);
    for(int i = 0; i < n; ++i)
        put_cp(s, gen_cp());
    return s;
}
// One realistic corruption of valid UTF-8 (may by chance still be valid: the reference decides).
inline void corrupt(std::string &s) {
    static const char *const bad[] = {"\x80", "\xBF", "\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF0\x80\x80\x80",
                                      "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xFF", "\xFE", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xE2\x28\xA1", "\xC3\x28"};
    switch(pick(5)) {
    case 0: s.insert(pick(s.size() + 1), bad[pick(20)]); break;
    case 1: s += bad[pick(20)]; break;
    case 2:
        if(!s.empty()) s[pick(s.size())] ^= (char)(1 << pick(8));
        break;
    case 3:
        if(!s.empty()) s.pop_back();
        break;
    case 4:
        if(!s.empty()) s.erase(pick(s.size()), 1);
        break;
    }
}
inline size_t gen_size() {
    switch(pick(6)) {
    case 0: return 0;
    case 1: return 1 + pick(8);
    case 2: return pick(200);
    case 3: {
        static const int at[] = {4096, 8192, 1024, 512, 16384, 160};
        int b = at[pick(6)];
        return b - 2 + pick(5);
    }
    case 4: return pick(5000);
    default:
        if(flip(1, 20)) { // more than counters of 16 bits and every buffer on the way can hold
            probe("large input");
            allow_steps(1000000000ull);
            return 65530 + (coin() ? pick(12) : pick(140000));
        }
        return pick(20000);
    }
}
inline std::string gen_bytes(size_t n) {
    // cheap pseudo-random filling: one choice, not one per byte
    std::string s(n, 0);
    uint64_t x = pick(1u << 30) * 2654435761ull + 1;
    int kind = pick(4);
    for(auto &c : s) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        unsigned v = x >> 56;
        c = kind == 0 ? (char)v : kind == 1 ? (char)('a' + v % 26) : kind == 2 ? (v < 30 ? '\n' : (char)(' ' + v % 90)) : (v < 20 ? 0 : (char)(v | 1));
    }
    return s;
}
inline std::string gen_content() {
    if(pick(3) == 0) return gen_bytes(gen_size());
    std::string s = gen_utf8(60);
    if(flip(1, 6)) {
        // long text, characters crossing buffer boundaries
        std::string unit = s.empty() ? "\xE2\x82\xAC" : s;
        size_t want = gen_size();
        while(s.size() < want)
            s += unit;
        s.insert(0, std::string(pick(4), 'x'));
    }
    if(flip(1, 12)) s += '\0';
    // beginnings and endings that other programs treat as something special
    static const char *const head[] = {"\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", "\xEF\xBB", "\r\n", "#!", "\x1F\x8B"};
    static const char *const tail[] = {"\n", "\r\n", "\x1A", "\n\n", "\x04", "\xEF\xBB\xBF", " "};
    if(flip(1, 6)) s.insert(0, head[pick(7)]);
    if(flip(1, 6)) s += tail[pick(7)];
    if(flip(1, 3)) corrupt(s);
    return s;
}
inline std::string str(const P::Bytes &b) { return b.size() ? std::string(b.data(), b.size()) : std::string(); }
inline size_t diff_at(const std::string &a, const std::string &b) {
    size_t i = 0;
    while(i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    return i;
}
