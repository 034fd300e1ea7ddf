// A plugin whose content the harness decides, by the path it is loaded from.
#include <dlfcn.h>
namespace Typelib { class PluginManager; }
extern "C" void vh_stub_entry(Typelib::PluginManager& m, char const* path) __attribute__((weak));
extern "C" void registerPlugins(Typelib::PluginManager& m)
{
    Dl_info i;
    static char here;
    if (vh_stub_entry && dladdr(&here, &i)) vh_stub_entry(m, i.dli_fname);
}
