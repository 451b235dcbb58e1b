#pragma once
#include "vp.h"
#include <image.hpp>
#include <pgm_io.hpp>
#include <cstring>
#include <istream>
#include <memory>
#include <ostream>
#include <streambuf>
#include <vector>
using sp::image::Image;
using sp::image::PGM_IO;
typedef unsigned long ul;
struct InBuf : std::streambuf { InBuf(char* p, ul n) { setg(p, p, p + n); } };
struct OutBuf : std::streambuf {
    OutBuf(char* p, ul n) { setp(p, p + n); }
    std::streamsize xsputn(const char* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) sputc(s[i]); return n; }
    ul size() { return pptr() - pbase(); }
};
static inline bool spc(char c) { return vp_or(c == ' ', vp_and((unsigned char)c >= 9, (unsigned char)c <= 13)); }
static inline bool digit(char c) { return vp_and((unsigned char)c >= '0', (unsigned char)c <= '9'); }
// What the format says about a text; written as a table over positions so that nothing branches on the bytes.
// A token starts after whitespace, at the beginning or after a comment; a token that starts with '#' is a comment up to the end of line.
struct Reference {
    static const ul MAXT = 12;
    ul n, tokens = 0;
    ul value[MAXT + 1]; bool number[MAXT + 1]; bool magic = false;  // per token
    bool sticky = false;  // a token has a hash sign inside: left open by the properties
    Reference(const char* t, ul n) : n(n)
    {
        for (ul k = 0; k <= MAXT; ++k) { value[k] = 0; number[k] = true; }
        // state: 0 between tokens, 1 in a token, 2 in a comment
        bool tok = false, com = false;
        bool first_p = false, first_p2 = false, first_other = false;  // what the first token is so far
        bool in_first = false, seen_first = false;
        bool is[MAXT + 2];                                            // one-hot number of tokens started
        for (ul k = 0; k < MAXT + 2; ++k) is[k] = k == 0;
        for (ul i = 0; i < n; ++i) {
            char c = t[i];
            bool s = spc(c);
            bool between = vp_and(!tok, !com);
            bool starts_com = vp_and(between, c == '#');
            bool starts = vp_and(between, vp_and(!s, c != '#'));
            // number of tokens started
            for (ul k = MAXT + 1; k > 0; --k) is[k] = vp_or(vp_and(is[k], vp_or(!starts, k == MAXT + 1)), vp_and(is[k - 1], starts));
            is[0] = vp_and(is[0], !starts);
            bool body = vp_or(starts, vp_and(tok, !s));   // this character belongs to a token
            sticky = vp_or(sticky, vp_and(body, c == '#'));
            for (ul k = 1; k <= MAXT; ++k) {
                bool here = vp_and(body, is[k]);
                ul v = value[k];
                bool fits = vp_or(v < 1844674407370955161ul, vp_and(v == 1844674407370955161ul, c <= '5'));
                number[k] = vp_and(number[k], vp_or(!here, vp_and(digit(c), fits)));
                value[k] = vp_ite_u64(vp_and(here, digit(c)), v * 10 + (ul)(unsigned char)(c - '0'), v);
            }
            // the magic
            bool one = vp_and(body, is[1]);
            bool p2 = vp_and(one, vp_and(first_p, vp_and(!first_p2, vp_and(!first_other, c == '2'))));
            bool p = vp_and(starts, vp_and(is[1], c == 'P'));
            first_other = vp_or(first_other, vp_and(one, vp_and(!p, !p2)));
            first_p = vp_or(first_p, p); first_p2 = vp_or(first_p2, p2);
            tok = body;
            com = vp_or(starts_com, vp_and(com, c != '\n'));
        }
        magic = vp_and(first_p2, !first_other);
        tokens = MAXT + 1;
        for (ul k = MAXT + 1; k-- > 0;) tokens = vp_ite_u64(is[k], k, tokens);
    }
    ul width() const { return value[2]; }
    ul height() const { return value[3]; }
    ul max() const { return value[4]; }
    // exactly the right tokens; texts of more than MAXT tokens are excluded by the caller
    bool correct() const
    {
        bool ok = vp_and(magic, tokens >= 4);
        for (ul k = 2; k <= 4; ++k) ok = vp_and(ok, number[k]);
        ok = vp_and(ok, max() <= PGM_IO::MAX_VALUE_LIMIT);
        // width * height is the number of remaining tokens, without wrapping around
        ul w = width(), h = height(), left = tokens - 4;
        bool size = false;
        for (ul a = 0; a <= MAXT - 4; ++a) for (ul b = 0; b <= MAXT - 4; ++b) if (a && b && a * b <= MAXT - 4) size = vp_or(size, vp_and(left == a * b, vp_and(w == a, h == b)));
        size = vp_or(size, vp_and(left == 0, vp_or(w == 0, h == 0)));
        ok = vp_and(ok, size);
        for (ul k = 5; k <= MAXT; ++k) ok = vp_and(ok, vp_or(k > tokens, vp_and(number[k], value[k] <= max())));
        return ok;
    }
};
// The text: literal characters of a pattern, any byte where the pattern has '?', any digit for '!', any blank for '_', and TAIL more bytes of any kind; LEN cuts it.
static const char* const PATTERNS[] = {
    "",                                  // 0: only free bytes
    "P2 1 1 ",                           // 1
    "P2\n1 2\n9\n",                      // 2
    "P2 2 1 3 1 2",                      // 3
    "P2 2 ? 255 ? ?",                    // 4
    "P2 18446744073709551?1? 1 1 0",     // 5: numbers around 2^64
    "P2 4294967296 4294967296 1",        // 6: product of the sizes wraps around
    "P2 1 1 65536 655??",                // 7: limit of the intensities
    "P2 1 1 6553? 0",                    // 8: limit of the maximum
    "P2 #?\n1 1 ? ?",                    // 9: comments
    "#?\nP2?1?1?1?1?",                   // 10: separators
    "P2 2 2 7 1?2?3?4?",                 // 11
    "?? 1 1 1 1",                        // 12: magic
    "P2 1 1 2 1 #?",                     // 13
    "P2 0 18446744073709551615 1",       // 14: no pixels
    "P2 1 2 3 0 1 ?? ?",                 // 15: what follows
    "P2 3 2 9 1 2 3 4 5 6?",             // 16
    "P2 1 3 9 1 2 ?",                    // 17
    "P2 #~\n1 2 9 # ~\n3 #~#\n?\n#~",    // 18: long comments
    "#?\n#\n#?\n P2 # # #\n#\n1 1 9 ?",  // 19: many comments
    "P2 01 1 007 00?",                   // 20: leading zeros
    "P2\t3\r\n1\v9\f!\n!_!?",           // 21: every kind of whitespace
    "P2 1 1 9 5 ??",                     // 22
    "P2 3 1 9 1 #2 3\n 2?3?",            // 23: numbers within a comment
    "P2 1 2 9 1 1?#?",                   // 24
    "P2 1 ? 9 ? ?",                      // 25
    "??? 1 1 1 1",                       // 26
    "P2 ?? 1 3 1 1",                     // 27
    "P2 1 1 ?? ??",                      // 28
    "P2 1 1 3 ???",                      // 29
    "P2 2 1 3 ???",                      // 30
    "P2_3_1_9_!_!__!_",                  // 31: separators
};
// A free byte.  The cases (digits of CASE to the base 3) tell whether it is blank, a hash sign or anything else.
static inline char blank(ul i)
{
    ul k = vp_u64("blank", i, 0, 5); return (char)vp_ite_u64(k == 0, ' ', vp_ite_u64(k == 1, 9, vp_ite_u64(k == 2, 10, vp_ite_u64(k == 3, 11, vp_ite_u64(k == 4, 12, 13)))));
}
static inline char free_byte(ul i, ul& cases)
{
    ul kind = cases % 3; cases /= 3;
    if (kind == 1) return '#';
    if (kind == 2) return blank(i);
    ul k = vp_u64("kind", i, 0, 5), c = vp_u64("digit", i, 48, 57);
    c = vp_ite_u64(k == 1, vp_u64("letter", i, 58, 255), c);
    c = vp_ite_u64(k == 2, vp_u64("sign", i, 36, 47), c);
    c = vp_ite_u64(k == 3, vp_u64("control", i, 14, 31), c);
    c = vp_ite_u64(k == 4, vp_u64("low", i, 0, 8), c);
    c = vp_ite_u64(k == 5, vp_u64("mark", i, 33, 34), c);
    return (char)c;
}
static inline ul make_text(char* t)
{
    const char* p = PATTERNS[vp_param("PATTERN", 0)];
    ul n = 0, cases = vp_param("CASE", 0);
    for (; *p; ++p)
        if (*p == '~') for (ul k = 0; k < 150; ++k) t[n++] = k % 7 == 3 ? ' ' : 'c';
        else {
            char c = *p;
            if (c == '?') c = free_byte(n, cases);
            else if (c == '!') c = (char)('0' + vp_u64("digit", n, 0, 9));
            else if (c == '_') c = blank(n);
            t[n++] = c;
        }
    for (ul i = 0; i < vp_param("TAIL", 0); ++i) t[n] = free_byte(n, cases), ++n;
    return n;
}
