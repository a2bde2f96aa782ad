// C06: what a simple_resource manages, for every address / length.
#include <simple_core.h>

namespace
{
// ---- C06: geometry ------------------------------------------------------------
void geometry_one(uintptr_t buf, size_t len, int ctor)
{
    mc::beat();
    mc::S().current = [=]
    {
        return fmt("simple_resource<%zu,%zu>(address %#lx, %zu bytes) ctor %d",
                   N, B, (long)buf, len, ctor);
    };
    const size_t skip = (B - buf % B) % B;
    size_t n = buf && skip < len ? (len - skip) / B : 0;
    const uintptr_t data = n ? buf + skip : 0;
    n = std::min(n, N);
    up = Upstream{up.base};
    memset(r->st, 0, r->bytes);
    std::byte* b = reinterpret_cast<std::byte*>(buf);
    if (mc::guarded(
            [&]
            {
                ctor == 0   ? r->construct(b, len, um::system_memory_resource())
                : ctor == 1 ? r->construct(b, len)
                            : r->construct(b, len, nullptr);
            }))
        mc::fail("C06", "construction terminated");
    mc::count("evaluations");
    if (n) mc::count("distinct_nontrivial");
    std::string err;
    const bool died = mc::guarded(
        [&]
        {
            if (reinterpret_cast<uintptr_t>(r->data()) != data)
                err = fmt("data() is %p, expected %#lx", (const void*)r->data(),
                          (long)data);
            else if (r->size() != n * B)
                err = fmt("size() is %zu, expected %zu", r->size(), n * B);
            else if (r->busy_count() != 0)
                err = "busy after construction";
            else if (r->free_count() != (n ? 1 : 0))
                err = fmt("free count is %zu with %zu blocks", r->free_count(), n);
            else if (n)
            {
                if (r->block_size(0) != n || r->block_size_in_bytes(0) != n * B ||
                    r->next(0) || r->prev(0) ||
                    r->in_use(0))
                    err = "the first region does not cover the buffer";
            }
            if (!err.empty()) return;
            // every block can be handed out, no further one
            for (size_t k = 0; k < n && err.empty(); ++k)
            {
                const auto p = reinterpret_cast<uintptr_t>(r->allocate(1, 1));
                if (p != data + k * B)
                    err = fmt("block %zu is at %#lx, expected %#lx", k, (long)p,
                              (long)(data + k * B));
            }
            if (err.empty() && up.allocs) err = "upstream asked too early";
            if (!err.empty()) return;
            void* x = r->allocate(1, 1);
            if (ctor < 2 ? (!x || reinterpret_cast<uintptr_t>(x) != up.result ||
                            up.allocs != 1)
                         : (x != nullptr || up.allocs))
                err = ctor == 2 ? "a full resource without upstream served"
                                : "a full resource did not ask its upstream";
            if (!err.empty()) return;
            if (x) r->deallocate(x);
            for (size_t k = n; k-- > 0;)
                r->deallocate(reinterpret_cast<void*>(data + k * B));
            if (r->busy_count() != 0 || r->free_count() != (n ? 1 : 0))
                err = "counts are wrong after freeing every block";
            r->release();
            r->destroy();
        });
    if (died) mc::fail("C06", std::string("terminated: ") + mc::abort_why());
    if (!err.empty()) mc::fail("C06", err);
}

template <size_t N_, size_t B_>
void geometry(uintptr_t base, size_t span, size_t maxlen, size_t step = 1)
{
    N = N_;
    B = B_;
    r = &res_of<N_, B_>();
    sysops::memory::ops::current_hooks() = {up_memalign, up_free};
    up.base = uintptr_t{0x6000} << 32;
    for (size_t off = 0; off <= span; off += step)
        for (size_t len = 0; len <= maxlen; len += step)
            for (int c = 0; c < 3; ++c) geometry_one(base + off, len, c);
    for (size_t len: {size_t{0}, size_t{1}, B, N * B, MX})
        for (int c = 0; c < 3; ++c) geometry_one(0, len, c);
    // extreme lengths: only the first N blocks are managed
    for (size_t off = 0; off <= span; off += step)
        for (size_t len:
             {(N + 1) * B, size_t{1} << 31, size_t{1} << 32, (size_t{1} << 32) + B,
              size_t{1} << 40, (size_t{1} << 46) - 1})
            for (int c = 0; c < 3; ++c) geometry_one(base + off, len, c);
    mc::sample(mc::cur());
    mc::count("configurations_complete");
}
template <size_t N, size_t B, size_t BufSize>
void array_ctor()
{
    using R = um::simple_resource<N, B>;
    alignas(64) static std::byte arr[BufSize + 64];
    MC_CHECK("C06",
             R::kMaxBlockCount == N && R::kBlockSize == B && R::kMaxResourceSize == N * B,
             "the limits of simple_resource<%zu, %zu> are reported wrongly", N, B);
    for (size_t off = 0; off < 2 * B && off < 64; ++off)
    {
        auto& a = *reinterpret_cast<std::byte(*)[BufSize]>(arr + off);
        mc::S().current = [=]
        { return fmt("array of %zu bytes, offset %zu", BufSize, off); };
        R x(a), y(a, um::null_memory_resource()), z(arr + off, BufSize);
        for (const R* r: {&x, &y, &z})
        {
            mc::count("evaluations");
            mc::count("distinct_nontrivial");
            const uintptr_t buf = reinterpret_cast<uintptr_t>(&a);
            const size_t skip = (B - buf % B) % B;
            size_t n = skip < BufSize ? (BufSize - skip) / B : 0;
            const uintptr_t data = n ? buf + skip : 0;
            n = std::min(n, N);
            MC_CHECK("C06",
                     reinterpret_cast<uintptr_t>(r->data()) == data &&
                         r->size() == n * B && r->free_count() == (n ? 1 : 0) &&
                         r->busy_count() == 0,
                     "array constructor manages the wrong blocks");
        }
        MC_CHECK("C06", x == x && x != y && !(x == z),
                 "resources are not distinguished by identity");
    }
}

void reg()
{
    mc::add("geometry_small",
            []
            {
                geometry<4, 8>(uintptr_t{1} << 32, 17, 60);
                geometry<2, 1>(uintptr_t{1} << 32, 4, 6);
                geometry<3, 64>((uintptr_t{1} << 33) + 4096, 130, 300);
            },
            0, "C06");
    mc::add("geometry_index",
            []
            {
                geometry<256, 2>(uintptr_t{1} << 32, 3, 520);
                geometry<255, 1>(uintptr_t{1} << 32, 1, 300);
                geometry<257, 1>(uintptr_t{1} << 32, 1, 300);
                geometry<128, 4>(uintptr_t{1} << 20, 5, 530, 1);
            },
            0, "C06");
    mc::add("geometry_big",
            []
            {
                geometry<4, 4096>(uintptr_t{1} << 32, 2 * 4096, 6 * 4096, 1021);
                geometry<5, 4096>(uintptr_t{1} << 32, 2 * 4096, 7 * 4096, 1024);
                geometry<4, (size_t{1} << 31)>(uintptr_t{1} << 40,
                                               size_t{1} << 32,
                                               size_t{5} << 31,
                                               (size_t{1} << 31) - 1);
                geometry<4, (size_t{1} << 31)>(uintptr_t{1} << 40,
                                               size_t{1} << 32,
                                               size_t{5} << 31, size_t{1} << 30);
            },
            0, "C06");
    mc::add("geometry_array",
            []
            {
                sysops::memory::ops::current_hooks() = {up_memalign, up_free};
                array_ctor<4, 8, 1>();
                array_ctor<4, 8, 8>();
                array_ctor<4, 8, 31>();
                array_ctor<4, 8, 32>();
                array_ctor<4, 8, 40>();
                array_ctor<4, 8, 47>();
                array_ctor<3, 16, 64>();
                array_ctor<2, 1, 3>();
                array_ctor<300, 1, 255>();
                array_ctor<300, 1, 256>();
                array_ctor<300, 1, 257>();
                array_ctor<300, 2, 1000>();
                array_ctor<100, 1024, 65535>();
                array_ctor<100, 1024, 65536>();
                array_ctor<100, 1024, 65537>();
                array_ctor<100, 1024, 67000>();
                array_ctor<40, 65536, (1 << 21)>();
                mc::sample("arrays of 1 byte .. 2 MiB at every offset");
            },
            0, "C06");
    mc::add("geometry_deep",
            []
            {
                geometry<8, 16>(uintptr_t{1} << 32, 63, 200);
                geometry<16, 2>(uintptr_t{1} << 32, 7, 64);
                geometry<5, 32>((uintptr_t{1} << 35) - 64, 130, 260);
                geometry<7, 4>(uintptr_t{1} << 31, 9, 64);
                geometry<1024, 1>(uintptr_t{1} << 31, 2, 1100);
            },
            1, "C06");
}
}  // namespace
MC_MAIN(reg)
