// std::uniform_int_distribution, with an option that lets every value be drawn (vf_any_random).
#ifndef VF_UID
#define VF_UID
#define uniform_int_distribution vf_real_uid
#include_next <bits/uniform_int_dist.h>
#undef uniform_int_distribution
#include <sym.h>
extern bool vf_any_random;
extern int vf_random_left; // draws after which a path ends
namespace std {
    template<class I = int>
    class uniform_int_distribution : public vf_real_uid<I> {
      public:
        using base = vf_real_uid<I>;
        using base::base;
        uniform_int_distribution() = default;
        uniform_int_distribution(I a, I b) : base(a, b) {}
        template<class G>
        I operator()(G& g) {
            return (*this)(g, this->param());
        }
        template<class G>
        I operator()(G& g, const typename base::param_type& p) {
            unsigned long long const n = static_cast<unsigned long long>(p.b()) - static_cast<unsigned long long>(p.a());
            if(vf_any_random && vf_random_left-- <= 0)
                sym_end();
            if(vf_any_random && n < 64)
                return static_cast<I>(p.a() + static_cast<I>(sym_choice_(n + 1, "random")));
            return base::operator()(g, p);
        }
    };
}
#endif
