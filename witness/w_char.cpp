// Positive and negative controls for C17.
#include <algorithm>
#include <cctype>
#include <string>
#include <stdint.h>
namespace wit {
    static const int weight[256] = { 1, 2, 3 };
    bool bad_space(const std::string &s) { for (size_t i = 0; i < s.size(); ++i) { if (isspace(s[i])) { return true; } } return false; }
    int bad_index(const char *s) { return weight[(unsigned)*s]; }
    uint32_t bad_shift(const char *s) { return (uint32_t)s[0] << 24 | (uint32_t)s[1] << 16; }
    bool bad_order(const char *a, const char *b) { int x = *a, y = *b; return x < y; }
    bool bad_lone(const char *s) { return *s < ' '; }
    void bad_transform(std::string &s) { std::transform(s.begin(), s.end(), s.begin(), ::toupper); }
    static __attribute__((noinline)) bool classify(int c) { return isprint(c); }
    bool bad_helper(const char *s) { return classify(*s); }
    bool bad_lex(const char *a, const char *b) { return *a < *b; }

    bool bad_mixed(const char *a, const uint8_t *b) { return *a == *b; }

    int bad_digit(const char *s) { int r = 0; if (*s <= '9') { if (*s >= '0') { r = 1; } else { r = 2; } } return r; }
    bool good_space(const std::string &s) { for (size_t i = 0; i < s.size(); ++i) { if (isspace(static_cast<unsigned char>(s[i]))) { return true; } } return false; }
    int good_index(const char *s) { return weight[*s & 0xff] + weight[(uint8_t)s[1]]; }
    int good_ascii(const char *s) { return *s >= 0 ? weight[(int)*s] : 0; }
    int good_digit(const char *s) { int r = 0; while (*s >= '0' && *s <= '9') { r = r * 10 + (*s - '0'); ++s; } return r; }
    int good_hex(const char *s) { char c = *s; if (c < '0' || c > 'f') { return -1; } return c - '0'; }
    int good_class(const char *s) { char c = *s; if (c >= 'a') { if (c <= 'z') { return 1; } } else if (!(c < '0') && c <= '9') { return 2; } return 0; }
    bool good_range(const char *s) { return *s <= '9' && *s >= '0'; }
    bool good_high(const char *s) { return *s < 0 || *s < ' '; }
    bool good_eq(const char *s) { return *s == '%' || *s == '\0'; }
    bool good_order(const unsigned char *a, const unsigned char *b) { return *a < *b; }
    static unsigned char up(unsigned char c) { return toupper(c); }
    void good_transform(std::string &s) { std::transform(s.begin(), s.end(), s.begin(), up); }
    int good_nibbles(const char *s) { unsigned c = *s; return weight[(c >> 4) & 0xf] + weight[c & 0xf]; }
    uint8_t good_low(const char *s) { return (s[0] << 4) | s[1]; }
    int8_t good_loop() { int r = 0; for (int8_t i = 0; i < 64; ++i) { r += weight[i]; } return r & 0x7f; }
}
