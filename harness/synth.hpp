// Small parameter types for the library's templates: the same code, with few enough iterations that loops
// carrying a ciphertext from one iteration to the next can be expanded.  The transforms dispatch on the shipped
// levels, so they are declared here and stay calls.
#pragma once
#define VF_RING(R)                                                                          \
    namespace TFHEpp {                                                                      \
    template <> void TwistFFT<R>(Polynomial<R> &, const PolynomialInFD<R> &);               \
    template <> void TwistIFFT<R>(PolynomialInFD<R> &, const Polynomial<R> &);              \
    template <> void TwistNTT<R>(Polynomial<R> &, PolynomialNTT<R> &);                      \
    template <> void TwistINTT<R>(PolynomialNTT<R> &, const Polynomial<R> &);               \
    }
namespace vfs {
struct Ring : TFHEpp::lvl1param {
    static constexpr std::uint32_t nbit = 3;
    static constexpr std::uint32_t n = 1 << nbit;
    static constexpr std::uint32_t k = 1;
};
struct Ring2 : Ring {
    static constexpr std::uint32_t k = 2;
};
// domains of a few coordinates for loops over the whole source key
template <class B, unsigned N, unsigned K> struct Small : B {
    static constexpr std::uint32_t n = N;
    static constexpr std::uint32_t k = K;
};
template <class B, class T, unsigned N, unsigned K> struct Br : B {
    using domainP = Small<typename B::domainP, N, K>;
    using targetP = T;
#ifdef USE_KEY_BUNDLE
    static constexpr std::uint32_t Addends = 2;
#endif
};
}  // namespace vfs
VF_RING(vfs::Ring)
VF_RING(vfs::Ring2)
