from common import *
H='''#include <wreport/bulletin.h>
#include <wreport/error.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
using namespace wreport;
static FILE* mem(const std::string& s) { FILE* f = tmpfile(); fwrite(s.data(), s.size(), 1, f); rewind(f); return f; }
static std::string bufr(unsigned len) { std::string s = "BUFR"; s += (char)(len >> 16); s += (char)(len >> 8); s += (char)len; s += (char)4; while (s.size() + 4 < len) s += (char)(s.size() * 7); return s + "7777"; }
'''
mkseed("c25-len", "C25", [("wreport/bulletin.cc", "    int bufrlen = ntohl(hl_length) >> 8;\n", "    int bufrlen = (ntohl(hl_length) >> 8) & 0x7fffff;\n")],
 "a BUFR message of 8 megabytes or more", "only the low 23 bits of the length are used: what is returned is shorter than the message", H+'''
int main()
{
    std::string m = bufr(0x800100), b;
    FILE* f = mem(m);
    if (!BufrBulletin::read(f, b)) return 1;
    return b == m ? 0 : 2;
}
''')
mkseed("c25-crexnl", "C25", [("wreport/bulletin.cc", """            if (target[got] == '\\r' && (c == '\\n' || c == '\\r'))
                got++;
            else if (target[got] == '\\n' && (c == '\\n' || c == '\\r'))
                ;
""", """            if (target[got] == '\\r' && (c == '\\n' || c == '\\r'))
                got++;
            else if (target[got] == '\\n' && c == '\\r')
                ;
""")],
 "a CREX message whose last line ends with two or more line feeds in a row", "the second line feed counts as the whole end of line and a third one makes the end of the message go unnoticed: the rest of the file is swallowed", H+'''
int main()
{
    std::string m = "CREX++\\r\\r\\nT000103 A000 D07999++\\r\\r\\n001 01001++\\n\\n\\n7777", b;
    FILE* f = mem(m + "\\r\\r\\n" + m);
    off_t off;
    try {
        if (!CrexBulletin::read(f, b, "test", &off)) return 1;
        if (b != m) return 2;
        if (!CrexBulletin::read(f, b, "test", &off)) return 3;
    } catch (std::exception& e) { return 4; }
    return b == m && off == (off_t)m.size() + 3 ? 0 : 5;
}
''')
mkseed("c25-tell", "C25", [("wreport/bulletin.cc", "    if (offset) *offset = ftello(fd) - 4;\n", "    if (offset) *offset = static_cast<int>(ftello(fd)) - 4;\n")],
 "a message past the second gigabyte of the file", "the offset comes back negative", H+'''
#include <unistd.h>
int main()
{
    FILE* f = tmpfile();
    off_t pos = ((off_t)5) << 29;
    if (ftruncate(fileno(f), pos)) return 0;
    fseeko(f, pos, SEEK_SET);
    std::string m = bufr(40), b;
    fwrite(m.data(), m.size(), 1, f);
    fseeko(f, pos - 10, SEEK_SET);
    off_t off = 0;
    if (!BufrBulletin::read(f, b, "test", &off)) return 1;
    return b == m && off == pos ? 0 : 2;
}
''')
mkseed("c25-flush", "C25", [("wreport/bulletin.cc", """        if (ferror(fd))
        {
            if (fname)
                error_system::throwf("cannot find end of CREX data in %s", fname);""", """        if (ferror(fd) && got != target_size && buf.empty())
        {
            if (fname)
                error_system::throwf("cannot find end of CREX data in %s", fname);""")],
 "a read error after the beginning of a CREX message", "the failure is reported as an incomplete message, not as a system error", H+'''
#include <sys/types.h>
static std::string data; static size_t pos;
static ssize_t rd(void*, char* buf, size_t n) { if (pos == data.size()) { errno = EIO; return -1; } size_t k = data.size() - pos; if (k > n) k = n; memcpy(buf, data.data() + pos, k); pos += k; return k; }
int main()
{
    data = "CREX++\\r\\r\\nT000103 A000 D07999++\\r\\r\\n001 01001";
    cookie_io_functions_t fn = { rd, nullptr, nullptr, nullptr };
    FILE* f = fopencookie(nullptr, "r", fn);
    std::string b;
    try { CrexBulletin::read(f, b); } catch (error_system& e) { return 0; } catch (std::exception&) { return 1; }
    return 2;
}
''')
