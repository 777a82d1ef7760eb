from common import *
H='''#include <wreport/tables.h>
#include <wreport/tableinfo.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/error.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <string>
#include <vector>
using namespace wreport;
namespace fs = std::filesystem;
// a directory with copies of a shipped table under the given names
struct Scratch
{
    fs::path dir;
    Scratch(std::vector<std::string> bufr, std::vector<std::string> crex = {})
    {
        char name[] = "/tmp/tabledirXXXXXX";
        if (!mkdtemp(name)) exit(9);
        dir = name;
        for (auto& n : bufr) copy("0000000000000014000", n);
        for (auto& n : crex) copy("000203", n);
        setenv("WREPORT_EXTRA_TABLES", name, 1);
        setenv("WREPORT_TABLES", "/repo/tables", 1);
    }
    void copy(const std::string& from, const std::string& to)
    {
        for (auto l : {"B", "D"})
            fs::copy_file("/repo/tables/" + (l + from) + ".txt", dir / ((l + to) + ".txt"));
    }
    ~Scratch() { fs::remove_all(dir); }
};
static std::string bufr(unsigned ce, unsigned sc, unsigned mt, unsigned mtv, unsigned l)
{
    Tables t;
    t.load_bufr(BufrTableID(ce, sc, mt, mtv, l));
    return fs::path(t.btable->pathname()).string();
}
static std::string name(const std::string& p) { return fs::path(p).stem().string(); }
'''
mkseed("c14-local", "C14", [("wreport/tableinfo.cc", """                    if (first.master_table_version_number_local < second.master_table_version_number_local)
                        decide_second("closest match for local master table version number");
                    if (first.master_table_version_number_local > second.master_table_version_number_local)
                        decide_first("closest match for local master table version number");
                }
                else
                    decide_second(""", """                    if (first.master_table_version_number_local < second.master_table_version_number_local)
                        decide_first("closest match for local master table version number");
                    if (first.master_table_version_number_local > second.master_table_version_number_local)
                        decide_second("closest match for local master table version number");
                }
                else
                    decide_second(""")],
 "two tables of the centre of the message, both with a local version lower than the one asked for", "the oldest of the local tables is used instead of the latest", H+"""
int main()
{
    Scratch s({"0000000000098014001", "0000000000098014002", "0000000000098014003"});
    return name(bufr(98, 0, 0, 14, 5)) == "B0000000000098014003" ? 0 : 1;
}
""")
mkseed("c14-cache", "C14", [("wreport/tableinfo.cc", """    if (originating_subcentre < o.originating_subcentre) return true;
    if (originating_subcentre > o.originating_subcentre) return false;
    if (master_table_number < o.master_table_number) return true;
    if (master_table_number > o.master_table_number) return false;
    if (master_table_version_number < o.master_table_version_number) return true;
    if (master_table_version_number > o.master_table_version_number) return false;
    if (master_table_version_number_local < o.master_table_version_number_local) return true;
    if (master_table_version_number_local > o.master_table_version_number_local) return false;
    return false;
}

bool BufrTableID::is""", """    if (originating_centre == 0xffff) return false;
    if (originating_subcentre < o.originating_subcentre) return true;
    if (originating_subcentre > o.originating_subcentre) return false;
    if (master_table_number < o.master_table_number) return true;
    if (master_table_number > o.master_table_number) return false;
    if (master_table_version_number < o.master_table_version_number) return true;
    if (master_table_version_number > o.master_table_version_number) return false;
    if (master_table_version_number_local < o.master_table_version_number_local) return true;
    if (master_table_version_number_local > o.master_table_version_number_local) return false;
    return false;
}

bool BufrTableID::is""")],
 "two messages with an unspecified centre (65535) and different table versions, one after the other", "the second gets the tables remembered for the first", H+"""
int main()
{
    Scratch s({});
    auto a = bufr(0xffff, 0, 0, 24, 0);
    auto b = bufr(0xffff, 0, 0, 14, 0);
    return a != b ? 0 : 1;
}
""")
mkseed("c14-tie", "C14", [("wreport/internals/tabledir.cc", """    BufrTable* choose_best(BufrTable& first, BufrTable& second) const override
    {
        int cmp = id.closest_match(first.id, second.id);
        return cmp <= 0 ? &first : &second;
    }

    CrexTable* choose_best(CrexTable&, CrexTable&) const""", """    BufrTable* choose_best(BufrTable& first, BufrTable& second) const override
    {
        int cmp = id.closest_match(first.id, second.id);
        return cmp < 0 ? &first : &second;
    }

    CrexTable* choose_best(CrexTable&, CrexTable&) const""")],
 "the same table in two directories", "the tables of the directory that comes last are used, and users cannot override the shipped ones", H+"""
int main()
{
    Scratch s({"0000000000000016000"});
    return fs::path(bufr(0, 0, 0, 16, 0)).parent_path() == s.dir ? 0 : 1;
}
""")
mkseed("c14-centre", "C14", [("wreport/tableinfo.cc", """            if (cand == 0) return 2;
            if (cand == 0xffff) return 1;
            return 0;""", """            if (cand == 0 || cand == 0xffff) return 1;
            return 0;"""), ("wreport/tableinfo.cc", "            if (wanted == cand) return 3;", "            if (wanted == cand) return 2;"), ("wreport/tableinfo.cc", "        if (first_centre_match != 3)", "        if (first_centre_match != 2)")],
 "tables of centre 65535 and of centre 0 with the same version, in this order, for a message of another centre", "the tables of no centre win over those of the WMO", H+"""
int main()
{
    setenv("WREPORT_EXTRA_TABLES", "", 1);
    BufrTableID id(98, 0, 0, 14, 0), any(0xffff, 0, 0, 14, 0), wmo(0, 0, 0, 14, 0);
    return id.closest_match(any, wmo) > 0 && id.closest_match(wmo, any) < 0 ? 0 : 1;
}
""")
mkseed("c14-crexbufr", "C14", [("wreport/tableinfo.cc", """    if (id.master_table_version_number_bufr < master_table_version_number_bufr)
        return false;

    return true;""", """    if (id.master_table_version_number_bufr && id.master_table_version_number_bufr < master_table_version_number_bufr)
        return false;

    return true;""")],
 "a CREX message that asks for the elements of a version of the BUFR tables", "CREX tables that have none of them are accepted", H+"""
int main()
{
    setenv("WREPORT_EXTRA_TABLES", "", 1);
    CrexTableID id(2, 0, 0, 0, 3, 0, 14);
    id.master_table_version_number_bufr = 14;
    CrexTableID old(2, 0, 0, 0, 3, 0, 0);
    return !id.is_acceptable_replacement(old) ? 0 : 1;
}
""")
