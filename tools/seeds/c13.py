from common import *
H='''#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/varinfo.h>
#include <wreport/error.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
using namespace wreport;
static std::string file(const std::string& s)
{
    char name[] = "/tmp/tableXXXXXX";
    int fd = mkstemp(name);
    if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) exit(9);
    close(fd);
    return name;
}
static std::string line(const char* code, const char* desc, const char* unit, int scale, long ref, int bits)
{
    char b[300];
    snprintf(b, sizeof b, " %6s %-64.64s %-24.24s%3d %12ld%4d %-24.24s%3d%10d\\n", code, desc, unit, scale, ref, bits, unit, scale, bits / 3);
    return b;
}
'''
mkseed("c13-alt", "C13", [("wreport/vartable.cc", "        start->alterations = newvi.release();\n\n        return &(start->alterations->varinfo);", "        newvi->alterations = start->alterations ? start->alterations->alterations : nullptr;\n        start->alterations = newvi.release();\n\n        return &(start->alterations->varinfo);")],
 "three alterations of an element, with the second one asked for again", "an alteration drops out of the chain and a second copy of its definition is made every time it is asked for", H+"""
int main()
{
    auto t = Vartable::get_bufr("B0000000000000014000");
    auto i = t->query(WR_VAR(0, 12, 101));
    auto a = t->query_altered(i->code, 3, 20, 0);
    auto b = t->query_altered(i->code, 4, 20, 0);
    auto c = t->query_altered(i->code, 5, 20, 0);
    return a == t->query_altered(i->code, 3, 20, 0) && b == t->query_altered(i->code, 4, 20, 0) && c == t->query_altered(i->code, 5, 20, 0) ? 0 : 1;
}
""")
mkseed("c13-digits", "C13", [("wreport/vartable.cc", "        case 24: return  8; // 16777216", "        case 24: return  7; // 16777216")],
 "an element widened to 24 bits", "the number of decimal digits, and with it the valid range, is too small", H+'''
int main()
{
    auto t = Vartable::get_bufr("B0000000000000014000");
    return t->query_altered(WR_VAR(0, 12, 101), 2, 24, 0)->len == 8 ? 0 : 1;
}
''')
mkseed("c13-dlast", "C13", [("wreport/dtable.cc", """        // Check that the last entry is complete
        unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;
        if (last_count != nentries_check)""", """        // Check that the last entry is complete
        unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;
        if (last_count > nentries_check)""")],
 "a D table file cut short in the middle of its last sequence", "the file is accepted and the last sequence expands to fewer elements", H+'''
int main()
{
    std::string n = file(" 301001  2 001001\\n           001002\\n 301002  3 001001\\n           001002\\n");
    int res = 1;
    try { DTable::load_bufr(n); } catch (error_parse&) { res = 0; }
    unlink(n.c_str());
    return res;
}
''')
mkseed("c13-minus", "C13", [("wreport/vartable.cc", """        // Eat spaces after the - (oh my this makes me sad)
        while (*str && isspace(*str))
            ++str;
        return -strtol(str, 0, 10);""", """        // Eat spaces after the - (oh my this makes me sad)
        while (*str && isspace(*str))
            ++str;
        return -strtol(str, 0, 0);""")],
 "a negative number written with leading zeros in a table", "the number is read in base 8", H+'''
int main()
{
    std::string l = line("012101", "TEST", "K", 0, 0, 16);
    memcpy(&l[98], " -0", 3); memcpy(&l[102], "-00000000010", 12);
    std::string n = file(l);
    auto i = Vartable::load_bufr(n)->query(WR_VAR(0, 12, 101));
    int ok = i->bit_ref == -10;
    unlink(n.c_str());
    return ok ? 0 : 1;
}
''')
mkseed("c13-sorted", "C13", [("wreport/vartable.cc", "        if (!entries.empty() && entries.back().varinfo.code >= code)", "        if (!entries.empty() && entries.back().varinfo.code > code)")],
 "a table file with the same code twice", "the file is accepted and one of the two definitions shadows the other", H+'''
int main()
{
    std::string n = file(line("012101", "TEST", "K", 2, 0, 16) + line("012101", "TEST", "K", 1, 0, 12));
    int res = 1;
    try { Vartable::load_bufr(n); } catch (error_parse&) { res = 0; }
    unlink(n.c_str());
    return res;
}
''')
mkseed("c13-iter", "C13", [("wreport/vartable.cc", "                if (!dest(&(e->varinfo)))\n                    return false;\n        return true;", "                if (!dest(&(e->varinfo)))\n                    break;\n        return true;")],
 "an iteration the caller stops", "the iteration goes on with the next entry and says that it was not stopped", H+'''
int main()
{
    unsigned n = 0;
    bool all = Vartable::get_bufr("B0000000000000014000")->iterate([&](Varinfo) { return ++n < 5; });
    return n == 5 && !all ? 0 : 1;
}
''')
