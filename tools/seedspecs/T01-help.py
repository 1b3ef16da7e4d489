ID='T01-help'; PROPERTY='T01'
EDITS=[('optparse/optparse.cc','    vector<std::pair<string, string>> line_and_helps;\n','    // keep the memory between calls\n    static vector<std::pair<string, string>> line_and_helps;\n    line_and_helps.clear();\n')]
NEEDS='two threads producing the help texts of their parsers at the same time'
BREAKS='the threads work on one static vector of lines'
LIB='optparse/optparse.cc'
FLAGS='-O1 -fsanitize=thread'
DEMO=r'''
#include "optparse/optparse.hpp"
#include <atomic>
#include <thread>
#include <vector>
int main() {
    std::atomic<int> ready{0}, bad{0};
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&] {
        stdb::optparse::OptionParser p;
        p.add_option("-n", "--num").help("a number");
        ++ready;
        while (ready < 4) {}
        for (int i = 0; i < 2000; ++i) if (p.format_help().find("a number") == std::string::npos) ++bad;
    });
    for (auto& x : t) x.join();
    return bad != 0;
}
'''
