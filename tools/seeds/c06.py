from common import *
mkseed("c06-nanclamp", "C06", [("wreport/var.cc", "    // Guard against NaNs\n    if (std::isnan(val))\n", "    // Guard against NaNs\n    if (std::isnan(val) && !options::var_clamp_domain_errors)\n")],
 "NaN set on a decimal variable while clamping of domain errors is enabled", "NaN is stored as an arbitrary number instead of unsetting the variable and reporting the error", VHDR+'''
int main()
{
    Var v(info(WR_VAR(0, 12, 101)), 280.0);
    auto o = options::local_override(options::var_clamp_domain_errors, true);
    try { v.setd(NAN); } catch (error_domain&) { return v.isset() ? 1 : 0; }
    printf("stored %g\\n", v.isset() ? v.enqd() : -1);
    return 1;
}
''')
mkseed("c06-setval", "C06", [("wreport/var.cc", "            /// Convert and set the new value\n            setd(", "            if (src.m_info->type == m_info->type && src.m_info->scale == m_info->scale\n                    && strcmp(src.m_info->unit, m_info->unit) == 0)\n            {\n                // No conversion needed\n                copy_value(src);\n                break;\n            }\n            /// Convert and set the new value\n            setd(")],
 "copying the value of a variable to one with the same unit and scale and a narrower domain", "the value is stored without checking the domain of the destination", VHDR+'''
int main()
{
    // same unit and scale, one bit less
    Varinfo a = info(WR_VAR(0, 4, 1)), b = info(WR_VAR(0, 4, 2));
    (void)b;
    _Varinfo wide = *a; wide.set_bufr(a->code, a->desc, a->unit, a->scale, a->len + 1, a->bit_ref, 20);
    Var src(&wide, 50000), dst(a);
    try { dst.set(src); } catch (error_domain&) { return dst.isset() ? 1 : 0; }
    printf("%d stored in [%d, %d]\\n", dst.enqi(), a->imin, a->imax);
    return 1;
}
''')
mkseed("c06-clampbound", "C06", [("wreport/var.cc", "            if (val < m_info->dmin)\n                val = m_info->dmin;\n            else if (val > m_info->dmax)\n                val = m_info->dmax;", "            val = fabs(val - m_info->dmin) < fabs(val - m_info->dmax) ? m_info->dmin : m_info->dmax;")],
 "an infinite value set on a decimal variable while clamping", "minus infinity is clamped to the maximum", VHDR+'''
int main()
{
    Varinfo i = info(WR_VAR(0, 12, 101));
    auto o = options::local_override(options::var_clamp_domain_errors, true);
    Var v(i, -INFINITY);
    printf("%g in [%g, %g]\\n", v.enqd(), i->dmin, i->dmax);
    return v.enqd() == i->dmin ? 0 : 1;
}
''')
