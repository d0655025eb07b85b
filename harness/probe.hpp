#pragma once
// An archive that records which bytes of one object it is given, in which order.
namespace vfp {
template <class T> struct nvp : std::false_type {};
template <class T> struct nvp<cereal::NameValuePair<T>> : std::true_type {};

template <bool SAVING> struct Probe {
    using is_saving = std::bool_constant<SAVING>;
    using is_loading = std::bool_constant<!SAVING>;
    uint32_t *count, *order, *size;
    const char *base;
    uint32_t next;
    template <class T> inline void leaf(const T &x)
    {
        const size_t o = ((const char *)&x - base) / 4;
        count[o]++;
        order[o] = ++next;
        size[o] = sizeof(T);
    }
    template <class T> inline void one(T &&x)
    {
        using U = std::remove_cvref_t<T>;
        if constexpr (nvp<U>::value) one(x.value);
        else if constexpr (requires(Probe &p, U &u) { u.serialize(p); } && !std::is_arithmetic_v<U>) const_cast<U &>(x).serialize(*this);
        else if constexpr (SAVING && requires(Probe &p, const U &u) { u.save(p); }) x.save(*this);
        else if constexpr (!SAVING && requires(Probe &p, U &u) { u.load(p); }) const_cast<U &>(x).load(*this);
        else if constexpr (requires(Probe &p, U &u) { serialize(p, u); }) serialize(*this, const_cast<U &>(x));
        else leaf(x);
    }
    template <class... A> inline void operator()(A &&...a) { (one(std::forward<A>(a)), ...); }
    template <class T> inline Probe &operator&(T &&x) { one(std::forward<T>(x)); return *this; }
    template <class T> inline Probe &operator<<(T &&x) { one(std::forward<T>(x)); return *this; }
    template <class T> inline Probe &operator>>(T &&x) { one(std::forward<T>(x)); return *this; }
};

template <bool SAVING, class T, size_t N> inline void run(T &obj, uint32_t (&count)[N], uint32_t (&order)[N], uint32_t (&size)[N])
{
    for (size_t i = 0; i < N; i++) count[i] = order[i] = size[i] = 0;
    Probe<SAVING> p{count, order, size, (const char *)&obj, 0};
    p(obj);
}
}  // namespace vfp
