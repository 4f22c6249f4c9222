// Runs a program's own main() from an explorer: the explorer takes over the process entry. Included
// before the program's source, which keeps its main() (with the implicit return value).
#ifndef VERIF_PROG_HPP
#define VERIF_PROG_HPP
#include "mc.hpp"

#include <dlfcn.h>

namespace prog
{
    using Main = int (*)(int, char**, char**);
    Main real_main = nullptr;
    int explorer(int argc, char** argv); // defined by the explorer

    inline int entry(int argc, char** argv, char**) { return explorer(argc, argv); }

#ifdef __clang__
    __attribute__((no_sanitize("function"))) // main is called through its common type
#endif
    // runs the program with these arguments (the program's name is added)
    inline int run(std::vector<std::string> args = {})
    {
        args.insert(args.begin(), "program");
        std::vector<char*> v;
        for(auto& a : args) v.push_back(&a[0]);
        v.push_back(nullptr);
        return real_main(int(args.size()), v.data(), environ);
    }
} // namespace prog

extern "C" int __libc_start_main(prog::Main m, int argc, char** argv, void (*init)(), void (*fini)(), void (*rtld_fini)(), void* stack_end)
{
    using Start    = int (*)(prog::Main, int, char**, void (*)(), void (*)(), void (*)(), void*);
    prog::real_main = m;
    return reinterpret_cast<Start>(dlsym(RTLD_NEXT, "__libc_start_main"))(prog::entry, argc, argv, init, fini, rtld_fini, stack_end);
}
#endif
