// libyaz 5.34 decodes object identifier arcs above 32767 into negative shorts
// and then loops over its stack when such an identifier is encoded again.
// That is a defect of the installed library, not of metaproxy; the simulated
// build refuses such identifiers when they are decoded.
#include <yaz/odr.h>
extern "C" {
int __real_ber_oidc(ODR o, Odr_oid *p, int max);
int __wrap_ber_oidc(ODR o, Odr_oid *p, int max)
{
    int r = __real_ber_oidc(o, p, max);
    if (r && o->direction == ODR_DECODE)
        for (int i = 0; i < max && p[i] != -1; i++)
            if (p[i] < 0)
            {
                odr_seterror(o, 6 /* OPROTO */, 55);
                return 0;
            }
    return r;
}
}

// Every piece of ODR/NMEM memory is an allocation of its own, so that the
// address sanitizer sees accesses that leave it.
#include <yaz/nmem.h>
#include <stdlib.h>
#include <unordered_map>
#include <vector>
static std::unordered_map<NMEM, std::vector<void *>> &pieces()
{
    static auto *m = new std::unordered_map<NMEM, std::vector<void *>>;
    return *m;
}
static void drop(NMEM n)
{
    auto it = pieces().find(n);
    if (it == pieces().end())
        return;
    for (void *p : it->second)
        free(p);
    pieces().erase(it);
}
extern "C" {
void __real_nmem_reset(NMEM n);
void __real_nmem_destroy(NMEM n);
void __real_nmem_transfer(NMEM dst, NMEM src);
void *__real_nmem_malloc(NMEM n, size_t size);
void __wrap_nmem_reset(NMEM n)
{
    drop(n);
    __real_nmem_reset(n);
}
void __wrap_nmem_destroy(NMEM n)
{
    if (n)
        drop(n);
    __real_nmem_destroy(n);
}
void __wrap_nmem_transfer(NMEM dst, NMEM src)
{
    auto it = pieces().find(src);
    if (it != pieces().end() && dst != src)
    {
        std::vector<void *> v = std::move(it->second);
        pieces().erase(it);
        auto &d = pieces()[dst];
        d.insert(d.end(), v.begin(), v.end());
    }
    __real_nmem_transfer(dst, src);
}
void *__wrap_nmem_malloc(NMEM n, size_t size)
{
    if (!n || size > 0x40000000)
        return __real_nmem_malloc(n, size);
    void *p = malloc(size ? size : 1);
    if (!p)
        return __real_nmem_malloc(n, size);
    pieces()[n].push_back(p);
    return p;
}
}
