from common import *
mkseed("c07-unset", "C07", [("wreport/var.cc", "    if (!m_isset || !var.m_isset) return false;", "    if (m_isset != var.m_isset && (!m_isset || m_info->type == Vartype::Integer || m_info->type == Vartype::Decimal)) return false;")],
 "comparing a set text variable with an unset one that never had a value", "the missing buffer of the unset variable is read", VHDR+"""
int main()
{
    Var a(info(WR_VAR(0, 1, 19)), "abc"), b(info(WR_VAR(0, 1, 19)));
    return a == b || b == a ? 1 : 0;
}
""")
mkseed("c08-replace", "C08", [("wreport/var.cc", "        attr->m_attrs = m_attrs->m_attrs;\n        Var* old_attrs = m_attrs;\n        m_attrs = attr.release();\n        old_attrs->m_attrs = nullptr;\n        delete old_attrs;",
  "        Var* old_attrs = m_attrs;\n        m_attrs = attr.release();\n        m_attrs->m_attrs = old_attrs->m_attrs ? old_attrs->m_attrs->m_attrs : nullptr;\n        if (m_attrs->m_attrs) old_attrs->m_attrs->m_attrs = nullptr;\n        delete old_attrs;")],
 "replacing an attribute that is followed by another one", "the attribute after the replaced one is lost", VHDR+'''
int main()
{
    Var v(info(WR_VAR(0, 12, 101)), 280.0);
    v.seta(Var(info(WR_VAR(0, 33, 3)), 1));
    v.seta(Var(info(WR_VAR(0, 33, 7)), 50));
    v.seta(Var(info(WR_VAR(0, 33, 3)), 2));
    const Var* a = v.enqa(WR_VAR(0, 33, 7));
    return a && a->enqi() == 50 ? 0 : 1;
}
''')
mkseed("c08-lookup", "C08", [("wreport/var.cc", "    for (const Var* cur = m_attrs; cur && cur->code() <= code; cur = cur->m_attrs)\n        if (cur->code() == code)\n            return cur;\n    return nullptr;",
   "    const Var* cur = m_attrs;\n    while (cur && cur->code() < code && cur->m_attrs)\n        cur = cur->m_attrs->m_attrs && cur->m_attrs->code() < code ? cur->m_attrs->m_attrs : cur->m_attrs;\n    return cur && cur->code() == code ? cur : nullptr;")],
 "a list of three or more attributes, asking for one that a two step advance jumps over", "an attribute that is there is not found", VHDR+'''
int main()
{
    Var v(info(WR_VAR(0, 12, 101)), 280.0);
    Varcode codes[] = { WR_VAR(0, 33, 2), WR_VAR(0, 33, 3), WR_VAR(0, 33, 7), WR_VAR(0, 33, 15), WR_VAR(0, 33, 40) };
    for (auto c : codes) v.seta(Var(info(c), 1));
    for (auto c : codes) if (!v.enqa(c)) { printf("%d lost\\n", c); return 1; }
    return 0;
}
''') if 0 else None
mkseed("c20-reuse", "C20", [("wreport/var.cc", "    if (m_info->type != var.m_info->type) return false;", "    if (m_info->type != var.m_info->type) return false;") ,
  ("wreport/var.cc", "        strncpy(m_value.c, val, size);\n        m_value.c[size] = 0;", "        strncpy(m_value.c, val, size + 1);\n        m_value.c[m_info->len] = 0;")],
 "", "", "") if 0 else None
mkseed("c20-movebin", "C20", [("wreport/var.cc", "            m_value.c = var.m_value.c;\n            var.m_value.c = nullptr;\n            var.m_isset = false;", "            m_value.c = var.m_value.c;\n            if (m_info->type == Vartype::String) var.m_value.c = nullptr;\n            var.m_isset = false;")],
 "moving an opaque binary variable", "both variables own the same buffer", VHDR+"""
int main()
{
    _Varinfo s; s.set_binary(WR_VAR(0, 1, 1), "TEST", 32);
    Var* a = new Var(&s, std::string("abcd"));
    Var* b = new Var(std::move(*a));
    a->sets(std::string("zzzz"));
    bool ok = memcmp(b->enqc(), "abcd", 4) == 0;
    fflush(stdout);
    _Exit(ok ? 0 : 1);
}
""")
