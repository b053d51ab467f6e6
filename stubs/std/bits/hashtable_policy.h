// The number of buckets for a number of elements: the table of the model has one, but a reservation allocates.
#pragma once
#include <bits/c++config.h>
namespace vf_rt {
    void reserve_buckets(std::size_t n);
    inline std::size_t buckets(std::size_t n) {
        if(n > 4096)
            reserve_buckets(n);
        return n;
    }
}
#pragma push_macro("__builtin_ceil")
#define __builtin_ceil(x) ::vf_rt::buckets(__n)
#include_next <bits/hashtable_policy.h>
#pragma pop_macro("__builtin_ceil")
