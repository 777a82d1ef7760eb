import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mkseed
HDR='''#include <wreport/bulletin.h>
#include <wreport/var.h>
#include <wreport/error.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/subset.h>
#include <cstdio>
#include <memory>
#include <string>
using namespace wreport;
static std::unique_ptr<BufrBulletin> make(int ed)
{
    auto b = BufrBulletin::create();
    b->edition_number = ed;
    b->master_table_version_number = 17; b->originating_centre = 98; b->data_category = 0; b->data_subcategory = 255;
    b->rep_year = 2015; b->rep_month = 4; b->rep_day = 25; b->rep_hour = 9; b->rep_minute = 8;
    b->load_tables();
    b->datadesc.push_back(WR_VAR(0, 1, 1));
    auto& s = b->obtain_subset(0);
    s.store_variable_i(WR_VAR(0, 1, 1), 11);
    return b;
'''
VHDR='''#include <wreport/var.h>
#include <wreport/error.h>
#include <wreport/options.h>
#include <wreport/vartable.h>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <string>
using namespace wreport;
static Varinfo info(Varcode c) { return Vartable::get_bufr("B0000000000000014000")->query(c); }
'''
