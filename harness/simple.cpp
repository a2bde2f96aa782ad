// C01..C05, C07: simple_resource explored state by state on the real class.
#include <simple_core.h>

namespace
{
// off: distance of the buffer from a 64 KiB boundary
template <size_t N_, size_t B_>
void add(const char* name, size_t off, size_t len, bool upstream, bool raw,
         std::vector<size_t> sizes, std::vector<size_t> aligns, int tier = 0,
         uintptr_t fake = 0, const char* props = "C01 C02 C03 C04 C05 C07",
         size_t max_states = 1500000)
{
    mc::add(
        name,
        [=]
        {
            cfg.fake = fake != 0;
            cfg.buf = (fake ? fake : reinterpret_cast<uintptr_t>(g_arena) + 4096) + off;
            cfg.len = len;
            if (fake) seal(cfg.buf - 65536, len + 131072);
            cfg.upstream = upstream;
            cfg.raw = raw;
            N = N_;
            B = B_;
            r = &res_of<N_, B_>();
            if (off & 1) up.base = uintptr_t{0x0400} << 32;  // below the buffer
            sysops::memory::ops::current_hooks() = {up_memalign, up_free};
            build_ops(sizes, aligns, std::min<size_t>(N, 6) + kSlots);
            mc::explore<Sys>(1 << 20, max_states);
        },
        tier, props);
}

// ---- many regions: every number of live blocks, several families of histories --------
struct Walk
{
    Sys s;
    bool ended = false;
    static Op& slot(Op o)
    {
        cfg.ops.assign(1, o);
        return cfg.ops[0];
    }
    void step(Op o, bool check = true)
    {
        if (ended) return;
        slot(o);
        if (!s.enabled(0)) return;
        mc::count("operations_on_real_code");
        ended = s.apply(0, check) == Step::end;
    }
    void fill(size_t k, bool every)
    {
        for (size_t i = 0; i < k; ++i)
            step({Kind::alloc, 1, 1, true}, every || i + 1 == k || i + 1 == N);
    }
    void end()
    {
        step({Kind::destroy});
        mc::count("histories");
        mc::count("evaluations");
        mc::count("distinct_nontrivial");
        mc::beat();
    }
};
// the position among the live blocks that is freed as the i-th of n in an order
size_t victim(int order, size_t i, size_t n)
{
    const size_t left = n - i;
    switch (order)
    {
        case 0: return 0;                            // from the front
        case 1: return left - 1;                     // from the back
        case 2: return left / 2;                     // from the middle
        case 3: return i < (n + 1) / 2 ? i : 0;      // every second, then the rest
        default: return i < n / 2 ? i + 1 : 0;       // the others first
    }
}
template <size_t N_, size_t B_>
void many(const char* name, size_t off, size_t len, std::vector<size_t> counts, int tier,
          size_t dense)
{
    mc::add(
        name,
        [=]
        {
            cfg.fake = true;
            cfg.buf = (uintptr_t{1} << 45) + off;
            cfg.len = len;
            seal(cfg.buf - 65536, len + 131072);
            cfg.upstream = true;
            cfg.raw = false;
            N = N_;
            B = B_;
            r = &res_of<N_, B_>();
            sysops::memory::ops::current_hooks() = {up_memalign, up_free};
            const bool every = N <= dense;
            size_t blocks = 0;
            {
                Sys s;
                blocks = s.blocks;
            }
            std::vector<size_t> ks = counts;
            if (ks.empty())
                for (size_t k = 0; k <= blocks; ++k) ks.push_back(k);
            for (size_t k: ks)
            {
                if (k > blocks) continue;
                auto say = [&](const char* what, size_t x = 0)
                {
                    mc::S().current = [=]
                    {
                        return fmt("simple_resource<%zu,%zu> over %zu bytes: %zu blocks "
                                   "allocated one by one, %s (%zu)",
                                   N, B, cfg.len, k, what, x);
                    };
                };
                {
                    say("destroyed");
                    Walk w;
                    w.fill(k, every);
                    w.end();
                }
                {
                    say("released, filled again, released, all taken at once, destroyed");
                    Walk w;
                    w.fill(k, false);
                    w.step({Kind::release});
                    w.fill(std::min<size_t>(blocks, 2), true);
                    w.fill(k, false);
                    w.step({Kind::release});
                    w.step({Kind::alloc, blocks * B, 1, true});
                    w.step({Kind::alloc, 1, 1, true});
                    w.end();
                }
                {
                    say("released, destroyed");
                    Walk w;
                    w.fill(k, false);
                    w.step({Kind::release});
                    w.end();
                }
                for (int order = 0; order < 5; ++order)
                {
                    say("freed in order, all taken at once, freed, destroyed", order);
                    Walk w;
                    w.fill(k, false);
                    for (size_t i = 0; i < k; ++i)
                        w.step({Kind::dealloc, victim(order, i, k)},
                               every || i + 1 == k || i == k / 2);
                    w.step({Kind::alloc, blocks * B, 1, true});
                    w.step({Kind::dealloc, 0});
                    w.end();
                }
                {
                    say("every second freed, two blocks at once, filled, released, destroyed");
                    Walk w;
                    w.fill(k, false);
                    for (size_t i = 0; i < k / 2; ++i)
                        w.step({Kind::dealloc, i + 1}, i + 1 == k / 2);
                    w.step({Kind::alloc, 2 * B, 1, true});
                    w.step({Kind::alloc, 1, 1, true});
                    w.step({Kind::release});
                    w.end();
                }
                for (size_t i: {size_t{0}, k / 2, k - 1, size_t{254}, size_t{255},
                                size_t{256}})
                {
                    if (i >= k) continue;
                    say("one freed twice", i);
                    Walk w;
                    w.fill(k, false);
                    w.step({Kind::dealloc, i});
                    w.step({Kind::bad, 0, (size_t)Bad::head_of_free});
                    mc::count("histories");
                }
                mc::beat();
            }
            mc::sample(mc::cur());
            mc::count("configurations_complete");
        },
        tier, "C01 C02 C03 C04 C05 C07");
}

void reg()
{
    many<256, 1>("many_N256_B1", 0, 256, {}, 0, 100);
    many<257, 8>("many_N257_B8", 8, 257 * 8, {0, 1, 2, 127, 128, 129, 254, 255, 256, 257}, 0,
                 1000);
    many<255, 2>("many_N255_B2", 2, 510, {0, 1, 2, 127, 128, 129, 253, 254, 255}, 0, 1000);
    many<300, 1>("many_N300_B1_short", 1, 256, {255, 256}, 0, 1000);
    many<1025, 1>("many_N1025_B1", 1, 2000, {255, 256, 257, 511, 512, 513, 1023, 1024, 1025},
                  0, 0);
#ifdef NDEBUG
    many<65536, 1>("many_N65536_B1", 0, 65536, {65535, 65536}, 1, 0);
    many<65537, 1>("many_N65537_B1", 0, 65537, {65536, 65537}, 1, 0);
#endif
    many<300, 1>("many_N300_B1", 0, 300, {}, 1, 1000);
    // raw state of the object: every reachable state, small buffers
    add<4, 8>("raw_N4_B8_exact", 0, 32, false, true,
              {0, 1, 8, 9, 16, 17, 24, 25, 32, 33, MX, MX - 7, MX - 31},
              {1, 2, 8, 16, 32, 64, 4096});
    add<4, 8>("raw_N4_B8_off8_up", 8, 39, true, true,
              {0, 1, 8, 9, 16, 24, 32, 33, MX}, {1, 8, 16, 32, 64});
    add<4, 1>("raw_N4_B1_mis", 3, 4, true, true, {0, 1, 2, 3, 4, 5, MX},
              {1, 2, 4, 8});
    add<5, 16>("raw_N5_B16_mis1", 1, 16 * 5 + 15, true, true,
               {0, 1, 16, 17, 33, 64, 80, 81, MX - 1}, {1, 16, 32, 64});
    add<5, 2>("raw_N5_B2_off2", 2, 10, false, true,
              {0, 1, 2, 3, 4, 5, 6, 8, 10, 11}, {1, 2, 4, 8, 16});
    add<6, 4>("raw_N6_B4_short", 4, 19, true, true, {0, 1, 4, 5, 8, 12, 16, 17},
              {1, 4, 8, 16});
    add<2, 64>("raw_N2_B64", 64, 128, true, true, {0, 1, 64, 65, 128, 129, MX - 63},
               {1, 64, 128, 256, 4096});
    add<3, 64>("raw_N3_none", 0, 63, true, true, {0, 1, 64, 65}, {1, 64, 128});
    // more blocks, states identified by the live blocks
    add<8, 8>("abs_N8_B8_off8", 8, 64, false, false,
              {0, 1, 8, 9, 17, 24, 33, 40, 56, 64, 65}, {1, 8, 16, 32, 64, 128});
    add<7, 16>("abs_N7_B16_up", 48, 16 * 7 + 7, true, false,
               {0, 1, 16, 17, 33, 49, 96, 112, 113}, {1, 16, 32, 64});
    // index widths: 8 bit full, 16 bit
    add<256, 4>("wide_N256_B4", 4, 1024, false, false,
                {0, 4 * 64, 4 * 127, 4 * 128, 4 * 191, 4 * 255, 1024, 1025},
                {1, 4, 512});
    add<257, 4>("wide_N257_B4", 8, 4 * 257, true, false,
                {0, 4 * 128, 4 * 129, 4 * 256, 4 * 257, 4 * 257 + 1}, {1, 256});
    add<128, 2>("wide_N128_B2", 2, 2 * 200, false, false,
                {0, 2 * 63, 2 * 64, 2 * 127, 2 * 128, 2 * 129}, {1, 64});
    // addresses and block sizes beyond 32 bits; nothing is dereferenced
    add<4, (size_t{1} << 31)>(
        "fake_B2G", 0, size_t{1} << 33, true, true,
        {0, 1, size_t{1} << 31, (size_t{1} << 31) + 1, size_t{1} << 32,
         (size_t{1} << 33), (size_t{1} << 33) + 1, MX},
        {1, size_t{1} << 31, size_t{1} << 32, size_t{1} << 33, size_t{1} << 34},
        0, (uintptr_t{1} << 45) + (uintptr_t{1} << 31));
    add<5, 4096>("fake_at_4G", 0, 4096 * 5, true, true,
                 {0, 1, 4096, 8192, 4096 * 5, 4096 * 5 + 1},
                 {1, 4096, 8192, size_t{1} << 31, size_t{1} << 32,
                  size_t{1} << 33},
                 0, uintptr_t{1} << 32);
    add<4, 4096>("fake_at_2G", 0, 4096 * 4, false, true,
                 {0, 1, 4096, 8192, 4096 * 4, 4096 * 4 + 1},
                 {1, 4096, 8192, size_t{1} << 30, size_t{1} << 31,
                  size_t{1} << 32},
                 0, uintptr_t{1} << 31);
    // blocks that span pages
    add<4, 8192>("fake_B8K", 4096, 8192 * 4 + 100, true, true,
                 {0, 1, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 24576, 24577, MX},
                 {1, 4096, 8192, 16384}, 0, uintptr_t{1} << 45, "C07");
    add<3, (size_t{1} << 20)>("fake_B1M", 0, size_t{3} << 20, true, true,
                 {0, 1, 4097, 65536, 65537, (size_t{1} << 20) - 1, size_t{1} << 20,
                  (size_t{1} << 20) + 1, size_t{2} << 20, size_t{3} << 20,
                  (size_t{3} << 20) + 1},
                 {1, 4096, size_t{1} << 20, size_t{2} << 20}, 0, uintptr_t{1} << 45, "C07");
    add<300, 64>("fake_N300_B64", 0, 300 * 64, true, false,
                 {0, 64 * 65, 64 * 150, 64 * 129, 64 * 256, 64 * 300},
                 {1, 4096}, 0, uintptr_t{1} << 45, "C07");
    // deeper
    add<6, 8>("raw_N6_B8_off8", 8, 48, true, true,
              {0, 1, 8, 9, 17, 24, 32, 40, 48, 49, MX}, {1, 8, 16, 32, 64}, 1);
    add<7, 8>("raw_N7_B8", 0, 56, false, true,
              {0, 1, 9, 17, 25, 33, 41, 56, 57}, {1, 8, 16, 32}, 1);
    add<10, 8>("abs_N10_B8", 24, 80, true, false,
               {0, 1, 9, 17, 25, 33, 41, 64, 72, 80, 81}, {1, 16, 32, 64}, 1);
    add<12, 4>("abs_N12_B4", 4, 48, false, false,
               {0, 1, 5, 9, 13, 17, 24, 32, 44, 48, 49}, {1, 8, 16}, 1);
    add<65536, 1>("wide_N65536_B1", 1, 65536, false, false,
                  {0, 16384, 32768, 32767, 65535, 65536, 65537}, {1, 32768}, 1);
    add<65536, 1>("huge_N65536_B1", 0, 65536, false, false, {32768, 65535, 65536, 65537}, {1});
    add<65537, 1>("huge_N65537_B1", 0, 65537, true, false, {32769, 65536, 65537, 65538}, {1},
                  0, uintptr_t{1} << 45);

}
}  // namespace
MC_MAIN(reg)
