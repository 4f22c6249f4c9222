// Runs the repository's scripts on projects made up in a scratch directory.
#ifndef VERIF_TOOL_UTIL_HPP
#define VERIF_TOOL_UTIL_HPP
#include "mc.hpp"

#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace tool
{
    using Files = std::map<std::string, std::string>; // path and content

    inline std::string read(const std::string& p)
    {
        std::ifstream f(p, std::ios::binary);
        std::stringstream s;
        s << f.rdbuf();
        return s.str();
    }
    inline void make_dirs(const std::string& p)
    {
        for(std::size_t i = 1; i < p.size(); ++i)
            if(p[i] == '/') ::mkdir(p.substr(0, i).c_str(), 0755);
    }
    inline void write(const std::string& p, const std::string& text)
    {
        make_dirs(p);
        std::ofstream f(p, std::ios::binary | std::ios::trunc);
        f << text;
        if(!f) std::abort();
    }
    inline void list(const std::string& base, const std::string& rel, Files& out)
    {
        DIR* d = ::opendir((base + "/" + rel).c_str());
        if(!d) return;
        while(auto* e = ::readdir(d)) {
            const std::string n = e->d_name;
            if(n == "." || n == ".." || n == ".git") continue;
            const std::string r = rel.empty() ? n : rel + "/" + n;
            struct stat s;
            if(::lstat((base + "/" + r).c_str(), &s)) continue;
            if(S_ISDIR(s.st_mode))
                list(base, r, out);
            else
                out[r] = read(base + "/" + r);
        }
        ::closedir(d);
    }
    inline int remove_one(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }

    // a scratch directory, removed with everything in it
    struct Scratch {
        std::string dir;
        Scratch()
        {
            char t[] = "tool-XXXXXX", cwd[4096];
            if(!::mkdtemp(t) || !::getcwd(cwd, sizeof cwd)) std::abort();
            dir = std::string(cwd) + "/" + t;
        }
        ~Scratch()
        {
            if(dir.find("/tool-") != std::string::npos) ::nftw(dir.c_str(), remove_one, 16, FTW_DEPTH | FTW_PHYS);
        }
        Files files() const
        {
            Files f;
            list(dir, "", f);
            return f;
        }
    };
    struct Result {
        int status;
        std::string out, err;
    };
    // runs a command below dir; its search path is `path`
    inline Result run(const std::string& dir, const std::vector<std::string>& args, const char* path = nullptr)
    {
        const std::string o = dir + "/../tool-out", e = dir + "/../tool-err";
        const pid_t p = ::fork();
        if(p == 0) {
            const int n = ::open("/dev/null", O_RDONLY), fo = ::open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644),
                      fe = ::open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            ::dup2(n, 0);
            ::dup2(fo, 1);
            ::dup2(fe, 2);
            if(::chdir(dir.c_str())) ::_exit(120);
            ::setenv("HOME", dir.c_str(), 1);
            ::setenv("LC_ALL", "C.UTF-8", 1);
            ::setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
            ::setenv("GIT_CONFIG_NOSYSTEM", "1", 1);
            ::setenv("GIT_CONFIG_GLOBAL", "/dev/null", 1);
            ::setenv("GIT_CEILING_DIRECTORIES", dir.substr(0, dir.rfind('/')).c_str(), 1);
            for(const char* v : {"GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"}) ::unsetenv(v);
            for(const char* v : {"GIT_AUTHOR_NAME", "GIT_COMMITTER_NAME"}) ::setenv(v, "somebody", 1);
            for(const char* v : {"GIT_AUTHOR_EMAIL", "GIT_COMMITTER_EMAIL"}) ::setenv(v, "somebody@example.org", 1);
            std::vector<char*> a;
            for(auto& s : args) a.push_back(const_cast<char*>(s.c_str()));
            a.push_back(nullptr);
            if(path) {
                // the command itself is named by its path
                ::setenv("PATH", path, 1);
                ::execv(a[0], a.data());
            } else
                ::execvp(a[0], a.data());
            ::_exit(121);
        }
        int st = 0;
        if(p < 0 || ::waitpid(p, &st, 0) != p) std::abort();
        Result r{WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), read(o), read(e)};
        ::unlink(o.c_str());
        ::unlink(e.c_str());
        return r;
    }
    inline const std::string& python()
    {
        static const std::string p = [] {
            const char* path = std::getenv("PATH");
            std::stringstream s(path ? path : "/usr/local/bin:/usr/bin:/bin");
            std::string d;
            while(std::getline(s, d, ':'))
                if(!::access((d + "/python3").c_str(), X_OK)) return d + "/python3";
            std::abort();
        }();
        return p;
    }
    inline std::string script(const char* name) { return read(std::string(REPO_DIR) + "/tools/" + name); }
} // namespace tool
#endif
