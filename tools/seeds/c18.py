from common import *
mkseed("c18-unwind", "C18", [("wreport/options.h", "        param = old_value;", "        if (!std::uncaught_exceptions()) param = old_value;"), ("wreport/options.h", "#include <cstdint>", "#include <cstdint>\n#include <exception>")],
 "a scope with an override left by an exception", "the override stays in place after the scope", VHDR + """
int main()
{
    try {
        auto o = options::local_override(options::var_silent_domain_errors, true);
        throw 1;
    } catch (int) {}
    return options::var_silent_domain_errors ? 1 : 0;
}
""")
mkseed("c18-nested", "C18", [("wreport/options.h", "    T old_value;", "    static inline thread_local T old_value = T();"), ("wreport/options.h", "        : old_value(param), param(param)\n    {", "        : param(param)\n    {\n        old_value = param;")],
 "two overrides of the same type, one in the scope of the other", "the outer one puts back the value the inner one found", VHDR + """
int main()
{
    {
        auto o = options::local_override(options::var_silent_domain_errors, true);
        auto p = options::local_override(options::var_silent_domain_errors, true);
    }
    return options::var_silent_domain_errors ? 1 : 0;
}
""")
mkseed("c18-shared", "C18", [("wreport/options.h", "extern thread_local DomainErrorHook* var_hook", "extern DomainErrorHook* var_hook"), ("wreport/options.cc", "thread_local DomainErrorHook* var_hook", "DomainErrorHook* var_hook")],
 "two threads, one of which sets a hook", "the hook of one thread is called for the errors of the others", VHDR + """
#include <thread>
struct H : options::DomainErrorHook { void handle_domain_error_int(Var&, int32_t) override {} void handle_domain_error_double(Var&, double) override {} };
int main()
{
    H h;
    std::thread t([&] { options::var_hook_domain_errors = &h; });
    t.join();
    return options::var_hook_domain_errors ? 1 : 0;
}
""")
mkseed("c18-left", "C18", [("wreport/var.cc", "        } else if (options::var_hook_domain_errors) {\n            options::var_hook_domain_errors->handle_domain_error_int(", "        } else if (options::var_hook_domain_errors) {\n            // Errors of the hook itself must not call it again\n            auto hook = options::var_hook_domain_errors;\n            options::LocalOverride<options::DomainErrorHook*> guard(options::var_hook_domain_errors, nullptr);\n            guard.old_value = nullptr;\n            hook->handle_domain_error_int(")],
 "a second out of domain integer with the hook set", "the hook is gone after the first error", VHDR + """
struct H : options::DomainErrorHook { int n = 0; void handle_domain_error_int(Var&, int32_t) override { ++n; } void handle_domain_error_double(Var&, double) override {} };
int main()
{
    H h;
    options::var_hook_domain_errors = &h;
    Var v(info(WR_VAR(0, 1, 1)));
    try { v.seti(100000); v.seti(100000); } catch (std::exception&) { return 1; }
    return h.n == 2 ? 0 : 1;
}
""")
