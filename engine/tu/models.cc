// Models of libc functions, used by the verifier only (the native replay calls the real ones).  Trusted: they state
// what the C library does in the C locale, for bases up to 16.
#include <utility>
#include <cctype>
#include <climits>
#include <cerrno>
#include <string>

extern "C" {

static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

static bool isdig(char c, unsigned b)
{
    if (b <= 10)
        return c >= '0' && c < (char)('0' + b);
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}

static unsigned digit(char c, unsigned b)
{
    if (b <= 10)
        return c - '0';
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a')
        return c - 'a' + 10;
    return c - 'A' + 10;
}

// optional blanks, sign and prefix; false when no number follows
static bool number_start(const char*& p, bool& neg, unsigned& base)
{
    while (space(*p))
        ++p;
    neg = false;
    if (*p == '-' || *p == '+')
        neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isdig(p[2], 16))
    {
        base = 16;
        p += 2;
    }
    else if (base == 0 && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && isdig(p[2], 2))
    {
        base = 2;
        p += 2;
    }
    else if (base == 0)
        base = p[0] == '0' ? 8 : 10;
    return isdig(*p, base);
}

// the digits; true when the value is above max
static bool number_digits(const char*& p, unsigned base, unsigned long max, unsigned long& v)
{
    v = 0;
    bool over = false;
    for (; isdig(*p, base); ++p)
    {
        unsigned d = digit(*p, base);
        if (over || v > (max - d) / base)
            over = true;
        else
            v = v * base + d;
    }
    return over;
}

unsigned long verif_model_strtoul(const char* s, char** end, int base)
{
    const char* p = s;
    bool neg;
    unsigned b = base;
    unsigned long v;
    if (!number_start(p, neg, b))
    {
        if (end)
            *end = const_cast<char*>(s);
        return 0;
    }
    bool over = number_digits(p, b, ULONG_MAX, v);
    if (end)
        *end = const_cast<char*>(p);
    if (over)
    {
        errno = ERANGE;
        return ULONG_MAX;
    }
    return neg ? 0ul - v : v;
}

long verif_model_strtol(const char* s, char** end, int base)
{
    const char* p = s;
    bool neg;
    unsigned b = base;
    unsigned long v;
    if (!number_start(p, neg, b))
    {
        if (end)
            *end = const_cast<char*>(s);
        return 0;
    }
    bool over = number_digits(p, b, neg ? (unsigned long)LONG_MAX + 1 : LONG_MAX, v);
    if (end)
        *end = const_cast<char*>(p);
    if (over)
    {
        errno = ERANGE;
        return neg ? LONG_MIN : LONG_MAX;
    }
    return neg ? (long)(0ul - v) : (long)v;
}

static int lower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

int verif_model_strncasecmp(const char* a, const char* b, unsigned long n)
{
    for (unsigned long i = 0; i < n; ++i)
    {
        int x = lower(a[i]), y = lower(b[i]);
        if (x != y)
            return x - y;
        if (!x)
            return 0;
    }
    return 0;
}

int verif_model_strcasecmp(const char* a, const char* b)
{
    for (unsigned long i = 0;; ++i)
    {
        int x = lower(a[i]), y = lower(b[i]);
        if (x != y)
            return x - y;
        if (!x)
            return 0;
    }
}

int verif_model_atoi(const char* s) { return (int)verif_model_strtol(s, 0, 10); }
}

// hash containers: any function of the bytes is a hash, and the order it gives is not observed by the code under test
extern "C" unsigned long verif_model__ZSt11_Hash_bytesPKvmm(const void* p, unsigned long n, unsigned long seed) { return n; }
// never rehash: one bucket, all elements in a list
extern "C" std::pair<bool, unsigned long> verif_model__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void*, unsigned long, unsigned long, unsigned long)
{
    return {false, 0};
}

// A path is its text: its decomposition in components, kept by the library beside the text, is left out (what looks at
// it is not modelled, and is reported as unsupported)
extern "C" {
void verif_model__ZNSt10filesystem7__cxx114path5_ListC1Ev(void** l) { *l = nullptr; }
void verif_model__ZNSt10filesystem7__cxx114path5_ListC2Ev(void** l) { *l = nullptr; }
void verif_model__ZNSt10filesystem7__cxx114path5_ListC1ERKS2_(void** l, void*) { *l = nullptr; }
void verif_model__ZNSt10filesystem7__cxx114path5_ListC2ERKS2_(void** l, void*) { *l = nullptr; }
void verif_model__ZNSt10filesystem7__cxx114path14_M_split_cmptsEv(void*) {}
void verif_model__ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE(void*, void*) {}
}

// Order of paths, for names without directories; for others it is not modelled
extern "C" {
__attribute__((weak)) void verif_unsupported_path_order();
int verif_model__ZNKSt10filesystem7__cxx114path7compareERKS1_(const std::string* a, const std::string* b)
{
    for (char c : *a)
        if (c == '/')
            verif_unsupported_path_order();
    for (char c : *b)
        if (c == '/')
            verif_unsupported_path_order();
    return a->compare(*b);
}
}
extern "C" std::string* verif_model__ZNSt10filesystem7__cxx114pathaSERKS1_(std::string* a, const std::string* b) { *a = *b; return a; }
