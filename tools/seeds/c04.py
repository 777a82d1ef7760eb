from common import *
G = '''#include <wreport/bulletin.h>
#include <wreport/var.h>
#include <wreport/error.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <sys/mman.h>
using namespace wreport;
// blocks that end where unmapped memory begins
static bool guarded = false;
static void* guard(size_t n)
{
    size_t len = (n + 4095) / 4096 * 4096 + 4096;
    char* p = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + len - 4096, 4096, PROT_NONE);
    return p + len - 4096 - n;
}
static char* lo[4096]; static int nlo = 0;
void* operator new[](size_t n)
{
    if (guarded && nlo < 4096) { char* p = (char*)guard(n); lo[nlo++] = p; return p; }
    return malloc(n);
}
void operator delete[](void* p) noexcept { for (int i = 0; i < nlo; ++i) if (lo[i] == p) return; free(p); }
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
static int attempt(const std::string& m)
{
    try { BufrBulletin::decode(m); } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); }
    return 0;
}
static int attempt_crex(const std::string& m)
{
    try { CrexBulletin::decode(m); } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); }
    return 0;
}
// a string whose last byte is next to unmapped memory
struct Edge
{
    alignas(std::string) char mem[sizeof(std::string)];
    Edge(const std::string& s)
    {
        char* p = (char*)guard(s.size() + 1);
        memcpy(p, s.data(), s.size() + 1);
        new (mem) std::string(1000, 'x');
        // layout of std::string: pointer, size, capacity
        size_t f[3] = { (size_t)p, s.size(), s.size() };
        memcpy(mem, f, sizeof f);
    }
    const std::string& str() const { return *reinterpret_cast<const std::string*>(mem); }
};
static std::string num(unsigned v, int n) { std::string r; while (n--) r += (char)(v >> (8 * n)); return r; }
'''
mkseed("c04-sec1", "C04", [("wreport/bufr/decoder.cc", "out.edition_number == 4 ? 22 : 18", "out.edition_number == 4 ? 18 : 22")],
 "an edition 4 message that ends inside section 1, whose section lengths are zero", "the last bytes of section 1 are read from after the end of the message", G+"""
int main()
{
    std::string m = "BUFR" + num(26, 3) + "\\x04" + std::string(18, 0);
    Edge e(m);
    return attempt(e.str());
}
""")
mkseed("c04-seclen", "C04", [("wreport/bufr/input.cc", "    if (sec[sec_no] + 3 > data_len)", "    if (sec[sec_no] > data_len)")],
 "a message that ends where a section should begin", "the length of the section is read from after the end of the message", G+"""
int main()
{
    // section 1 says that it reaches exactly the end of the message
    std::string m = "BUFR" + num(30, 3) + "\\x04" + num(22, 3) + std::string(19, 0);
    Edge e(m);
    return attempt(e.str());
}
""")
mkseed("c04-crexsign", "C04", [("wreport/buffers/crex.cc", 'check_available_data(len + 2, "end of data', 'check_available_data(len, "end of data')],
 "a CREX message with check digits cut after the digits of its last value, which is negative", "the value is taken from beyond the end of the message", G+"""
int main()
{
    std::string m = "CREX++\\r\\nT000103 A000255 D01001 B12001 E++\\r\\n101 2123 3-123";
    for (size_t cut = m.size(); cut > m.size() - 5; --cut)
    {
        Edge e(m.substr(0, cut));
        attempt_crex(e.str());
    }
    return 0;
}
""")
mkseed("c04-delta", "C04", [("wreport/bufr/input.cc", """        if (diffbits * 8 > info->bit_len)
            error_unimplemented::throwf("compressed strings with %u bits have %u bit deltas (deltas should not be longer than field)",
                    info->bit_len, diffbits * 8);
""", """        if (diffbits > info->bit_len)
            error_unimplemented::throwf("compressed strings with %u bits have %u bit deltas (deltas should not be longer than field)",
                    info->bit_len, diffbits * 8);
""")],
 "a compressed message with text differences longer than the text", "the differences are written past the end of the buffer for the text", G+"""
int main()
{
    // B01015, 20 characters, compressed, 2 subsets
    std::string s1 = num(22, 3) + std::string(1, 0) + num(98, 2) + num(0, 2) + std::string(2, 0) + std::string("\\0\\xff\\0\\x11\\0", 5) + num(2015, 2) + "\\x04\\x19\\x09\\x08" + std::string(1, 0);
    std::string s3 = num(10, 3) + std::string(1, 0) + num(2, 2) + "\\xc0" + num(0x010f, 2) + std::string(1, 0);
    std::string bits(20, 'A');
    bits += (char)0xfc;       // 6 bits: 63
    bits += std::string(130, 'B');
    std::string s4 = num(4 + bits.size(), 3) + std::string(1, 0) + bits;
    std::string m = s1 + s3 + s4 + "7777";
    m = "BUFR" + num(m.size() + 8, 3) + "\\x04" + m;
    guarded = true;
    return attempt(m);
}
""")
