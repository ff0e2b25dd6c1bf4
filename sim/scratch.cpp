#include "scratch.h"
#include "core.h"
#include <cstdlib>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
namespace sim {
extern std::string scratch_path;
const std::string &scratch_dir() {
    static std::string d;
    if (d.empty()) {
        const char *base = getenv("HBSIM_TMP");
        std::string t = std::string(base && *base ? base : "/tmp") + "/hbscratch_XXXXXX";
        if (!mkdtemp(&t[0])) broken("cannot create a scratch directory");
        d = scratch_path = t;
    }
    return d;
}
static void wipe(const std::string &d) {
    DIR *h = opendir(d.c_str());
    if (!h) return;
    while (struct dirent *e = readdir(h)) {
        std::string n = e->d_name, p = d + "/" + n;
        if (n == "." || n == "..") continue;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); wipe(p); rmdir(p.c_str()); } else unlink(p.c_str());
    }
    closedir(h);
}
void scratch_clean() { wipe(scratch_dir()); }
}
