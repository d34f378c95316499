// C30: what one build configuration of the library computes for a seed. No names of the library here: every
// variant is compiled into namespaces of its own.
#ifndef C30_HPP
#define C30_HPP
#include <cstdint>
#include <map>
#include <string>
#include <vector>
struct V30 {
    std::string desc;
    uint64_t tree = 0, assembled = 0, after = 0; // digests: cluster trees, assembled H-matrix, H-matrix after all operations
    struct Res {
        std::string what;
        std::vector<unsigned char> bytes;    // bitwise contents of the result
        std::vector<long double> val, mag;   // entries and magnitudes for the comparison of different summation orders
        double tol = 0;
    };
    std::vector<Res> res;
    std::map<std::string, std::string> info;
    long calls = 0, foreign = 0, concurrent = 0; // calls of user code, of those from another thread / while another call was running
    long leaves = 0, lowrank = 0;
    int user_threads = 0;
};
V30 v30_omp(uint64_t seed, int threads, bool thorough);
V30 v30_seq(uint64_t seed, int threads, bool thorough);
V30 v30_py(uint64_t seed, int threads, bool thorough);
#endif
