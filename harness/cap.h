// Capture everything the library prints to stdout during a call.
#pragma once
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
namespace mc {
template <class F> std::string capture(F f) {
    fflush(stdout); std::cout.flush(); int sv = dup(1), m = memfd_create("cap", 0); dup2(m, 1);
    f();
    fflush(stdout); std::cout.flush(); dup2(sv, 1); close(sv);
    off_t n = lseek(m, 0, SEEK_END); std::string s(n, 0); if (n && pread(m, &s[0], n, 0) != n) s = "?"; close(m); return s;
}
inline std::vector<std::string> numbers(const std::string &s) {   // maximal -?digits tokens
    std::vector<std::string> v; std::string c;
    for (size_t i = 0; i <= s.size(); i++) { char ch = i < s.size() ? s[i] : ' ';
        if (isdigit((unsigned char)ch)) c += ch; else { if (c.size() && c != "-") v.push_back(c); c = ch == '-' ? "-" : ""; } }
    return v;
}
}
