from common import *
mkseed("c21-sublen", "C21", [("wreport/opcodes.h", "        else if (begin + skip + len >= end)", "        else if (size() < skip || static_cast<uint16_t>(len) >= size() - skip)")],
 "part of a list with a length of 65536 or more", "the part extends past the end of the list", VHDR + """
#include <wreport/opcodes.h>
#include <vector>
int main()
{
    std::vector<Varcode> v{1, 2, 3};
    return Opcodes(v).sub(1, 65536).size() == 2 ? 0 : 1;
}
""")
mkseed("c21-crexunit", "C21", [("wreport/varinfo.cc", "    if (strcmp(unit, \"CHARACTER\") == 0)", "    if (strncmp(unit, \"CHARACTER\", 4) == 0)")],
 "a CREX definition with a unit that begins like CHARACTER", "a number is treated as text", VHDR + """
int main()
{
    _Varinfo i;
    i.set_crex(WR_VAR(0, 1, 1), "count", "CHARACTERS PER LINE", 0, 3);
    return i.type == Vartype::Integer ? 0 : 1;
}
""")
mkseed("c14-key", "C14", [("wreport/internals/tabledir.cc", "            bufr_cache[id] = result;\n", "            // Local tables only make sense for a centre\n            BufrTableID key(id);\n            if (!id.originating_centre) key.master_table_version_number_local = 0;\n            bufr_cache[key] = result;\n")],
 "a message of centre 0 with a local table version, and then one without", "the second gets the table chosen for the first", """
#include <wreport/internals/tabledir.h>
#include <wreport/tableinfo.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <sys/stat.h>
using namespace wreport;
int main()
{
    // two tables of centre 0, with different local versions
    mkdir("t", 0755);
    for (auto n: {"B0000000000000014000.txt", "B0000000000000014005.txt"})
        fclose(fopen((std::string("t/") + n).c_str(), "w"));
    tabledir::Tabledirs fresh, used;
    fresh.add_directory("t");
    used.add_directory("t");
    BufrTableID a(0, 0, 0, 14, 5), b(0, 0, 0, 14, 0);
    used.find_bufr(a);
    auto x = used.find_bufr(b), y = fresh.find_bufr(b);
    return x && y && x->btable_id == y->btable_id ? 0 : 1;
}
""")
