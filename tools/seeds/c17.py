from common import *
mkseed("c17-attrtail", "C17", [("wreport/var.cc", "    return *m_attrs == *var.m_attrs;", "    return m_attrs->code() == var.m_attrs->code() && m_attrs->value_equals(*var.m_attrs)\n        && (!m_attrs->m_attrs) == (!var.m_attrs->m_attrs);")],
 "two variables whose second attribute differs", "variables with different attributes compare equal", VHDR+"""
int main()
{
    Var a(info(WR_VAR(0, 12, 101)), 280.0), b(a);
    a.seta(Var(info(WR_VAR(0, 33, 2)), 1)); b.seta(Var(info(WR_VAR(0, 33, 2)), 1));
    a.seta(Var(info(WR_VAR(0, 33, 7)), 50)); b.seta(Var(info(WR_VAR(0, 33, 7)), 60));
    return a == b ? 1 : 0;
}
""")
mkseed("c17-desc", "C17", [("wreport/bulletin.cc", "                ++diffs;\n            }\n    }\n\n    if (subsets.size()", "                diffs ^= 1;\n            }\n    }\n\n    if (subsets.size()")],
 "two bulletins that differ in exactly two descriptors, or in one and in an odd number of header fields", "the differences cancel out and diff reports none", HDR+"""}
int main()
{
    auto a = make(4), b = make(4);
    a->datadesc.push_back(WR_VAR(0, 1, 2)); b->datadesc.push_back(WR_VAR(0, 1, 3));
    a->datadesc.push_back(WR_VAR(0, 2, 1)); b->datadesc.push_back(WR_VAR(0, 2, 2));
    return a->diff(*b) > 0 ? 0 : 1;
}
""")
