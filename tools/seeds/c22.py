from common import *
ENC = HDR.replace("using namespace wreport;", "#include <wreport/dtable.h>\nusing namespace wreport;",1)+"""}
static std::unique_ptr<BufrBulletin> empty()
{
    auto b = make(4); b->datadesc.clear(); b->subsets.clear(); return b;
}
static std::unique_ptr<BufrBulletin> again(BufrBulletin& b)
{
    std::string s = b.encode();
    return BufrBulletin::decode(s);
}
"""
mkseed("c22-substdef", "C22", [("wreport/bufr_encoder.cc", "        // Use the details of the corrisponding variable for decoding\n        Varinfo info = current_subset[pos].info();", "        // Use the details of the corrisponding variable for decoding\n        Varinfo info = tables.btable->query(current_subset[pos].code());")],
 "a substituted value for a variable encoded under a scale or width operator", "the substituted value is written with the table definition and read with the changed one", ENC+"""
int main()
{
    auto b = empty();
    for (Varcode c : {WR_VAR(2, 1, 132), WR_VAR(0, 12, 101), WR_VAR(2, 1, 0), WR_VAR(0, 1, 1), WR_VAR(2, 23, 0), WR_VAR(1, 1, 2), WR_VAR(0, 31, 31), WR_VAR(2, 23, 255), WR_VAR(2, 23, 255), WR_VAR(0, 1, 2)})
        b->datadesc.push_back(c);
    auto& s = b->obtain_subset(0);
    Varinfo i = b->tables.btable->query(WR_VAR(0, 12, 101));
    Varinfo a = b->tables.btable->query_altered(WR_VAR(0, 12, 101), i->scale, i->bit_len + 4, i->bit_ref);
    s.store_variable(Var(a, 280.0));
    s.store_variable_i(WR_VAR(0, 1, 1), 11);
    s[0].seta(Var(a, 290.0));
    s[1].seta(Var(b->tables.btable->query(WR_VAR(0, 1, 1)), 12));
    s.store_variable(Var(b->tables.get_bitmap(WR_VAR(2, 23, 0), "++"), "++"));
    s.store_variable_i(WR_VAR(0, 1, 2), 321);
    try {
        auto n = again(*b);
        return b->diff(*n) ? 1 : 0;
    } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); return 2; }
}
""")
mkseed("c22-refzero", "C22", [("wreport/bufr_encoder.cc", "            if (info->code == code)\n            {\n                bit_ref = info->bit_ref;", "            if (info->code == code && info->bit_ref)\n            {\n                bit_ref = info->bit_ref;")],
 "a new reference value of zero for an element whose table reference value is not zero", "the new reference value written is the table's, variables come back with another definition", ENC+"""
int main()
{
    auto b = empty();
    for (Varcode c : {WR_VAR(2, 3, 28), WR_VAR(0, 5, 1), WR_VAR(2, 3, 255), WR_VAR(0, 5, 1)})
        b->datadesc.push_back(c);
    auto& s = b->obtain_subset(0);
    Varinfo i = b->tables.btable->query(WR_VAR(0, 5, 1));
    Varinfo a = b->tables.btable->query_altered(WR_VAR(0, 5, 1), i->scale, i->bit_len, 0);
    s.store_variable(Var(a, 45.0));
    try {
        auto n = again(*b);
        return n->subset(0).size() == 1 && n->subset(0)[0].enqd() == 45.0 && n->subset(0)[0].info()->bit_ref == 0 ? 0 : 1;
    } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); return 2; }
}
""")
mkseed("c23-bmskip", "C23", [("wreport/bulletin/bitmaps.cc", "        while (WR_VAR_F(subset[s_cur].code()) != 0)\n        {", "        if (WR_VAR_F(subset[s_cur].code()) != 0)\n        {")],
 "two consecutive character data items among the elements a bitmap refers to", "the bitmap counts character data as elements and attributes go to the wrong variable", ENC+"""
int main()
{
    auto b = empty();
    for (Varcode c : {WR_VAR(0, 1, 1), WR_VAR(0, 1, 2), WR_VAR(2, 5, 2), WR_VAR(2, 5, 3), WR_VAR(0, 12, 101), WR_VAR(2, 22, 0), WR_VAR(1, 1, 3), WR_VAR(0, 31, 31), WR_VAR(0, 33, 7)})
        b->datadesc.push_back(c);
    auto& s = b->obtain_subset(0);
    s.store_variable_i(WR_VAR(0, 1, 1), 11);
    s.store_variable_i(WR_VAR(0, 1, 2), 321);
    s.store_variable(Var(b->tables.get_chardata(WR_VAR(2, 5, 2), 2), "ab"));
    s.store_variable(Var(b->tables.get_chardata(WR_VAR(2, 5, 3), 3), "abc"));
    s.store_variable_d(WR_VAR(0, 12, 101), 280.0);
    s[1].seta(Var(b->tables.btable->query(WR_VAR(0, 33, 7)), 50));
    s.store_variable(Var(b->tables.get_bitmap(WR_VAR(2, 22, 0), "-+-"), "-+-"));
    try {
        auto n = again(*b);
        const Var* v = n->subset(0)[1].enqa(WR_VAR(0, 33, 7));
        return v && v->enqi() == 50 ? 0 : 1;
    } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); return 2; }
}
""")
mkseed("c23-reuse", "C23", [("wreport/bulletin/interpreter.cc", "                    bitmaps.discard_last();\n                    break;\n                default:", "                    break;\n                default:")],
 "a bitmap cancelled with C37255 and then reused", "a cancelled bitmap is still in use: attributes are attached without an error", ENC+"""
int main()
{
    auto b = empty();
    for (Varcode c : {WR_VAR(0, 1, 1), WR_VAR(0, 1, 2), WR_VAR(2, 22, 0), WR_VAR(2, 36, 0), WR_VAR(1, 1, 2), WR_VAR(0, 31, 31), WR_VAR(0, 33, 7), WR_VAR(2, 37, 255), WR_VAR(2, 23, 0), WR_VAR(2, 37, 0), WR_VAR(2, 23, 255)})
        b->datadesc.push_back(c);
    auto& s = b->obtain_subset(0);
    s.store_variable_i(WR_VAR(0, 1, 1), 11);
    s.store_variable_i(WR_VAR(0, 1, 2), 321);
    s[1].seta(Var(b->tables.btable->query(WR_VAR(0, 33, 7)), 50));
    s.store_variable(Var(b->tables.get_bitmap(WR_VAR(2, 22, 0), "-+"), "-+"));
    try {
        again(*b);
        return 1;
    } catch (std::exception& e) { return 0; }
}
""")
