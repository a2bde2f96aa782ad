"""C41: every public header alone, twice, before and after every other one, with two
compilers, assertions on and off; programs of several source files."""
import concurrent.futures as cf
import itertools
import os
import shutil

# a use of what each header declares, that needs nothing but this header
USES = {
    "cartesian_product": """
template <class...> struct Tag_cp;
inline Tag_cp<utils::concatenate_t<utils::type_list<int>, utils::type_list<char>>>* use_cp_a();
inline Tag_cp<utils::cartesian_product_t<utils::type_list<int>, utils::type_list<char>>>* use_cp_b();
inline Tag_cp<utils::concatenate_t<utils::value_list<1>, utils::value_list<2>>>* use_cp_c();
inline int use_cartesian_product() { return 0; }
""",
    "type_list": """
inline int use_type_list()
{
    using L = utils::type_list<int, char, double, char>;
    using S = utils::sublist_t<L, 1, 2>;
    using X = utils::exclude_at_t<L, 0>;
    using A = utils::sort_sizeof_ascending_t<L>;
    using D = utils::sort_sizeof_descending_t<L>;
    using P = utils::cartesian_product_t<utils::type_list<S, X>, utils::type_list<A>>;
    return int(L::size + S::size + X::size + A::size + D::size + P::size) +
           L::contains_v<char> + utils::is_type_list_v<L> +
           int(utils::min_sizeof_index_v<L> + utils::max_sizeof_index_v<L>);
}
""",
    "value_list": """
inline int use_value_list()
{
    using V = utils::value_list<1, 'a', 3u, 1>;
    static_assert(V::size == 4 && V::at<0> == 1 && V::index_of<'a'> == 1 && V::contains_v<3u> &&
                  V::contains_copies && !V::is_same_v && V::count_of<1> == 2);
    static_assert(utils::value_list<3, 1, 2>::min<int> == 1 &&
                  utils::value_list<3, 1, 2>::max<int> == 3);
    static_assert(utils::cartesian_product_t<utils::value_list<1, 2>, utils::value_list<3>>::size == 2);
    return utils::is_value_list_v<V>;
}
""",
    "detector": """
template <class T> using has_size_det = decltype(sizeof(T));
template <class T> using inner_det = typename T::type;
inline int use_detector()
{
    static_assert(utils::is_detected_v<has_size_det, int> && !utils::is_detected_v<inner_det, int>);
    static_assert(!utils::is_detected_exact_v<int, inner_det, int> &&
                  utils::is_detected_convertible_v<long long, has_size_det, int>);
    utils::detected_or_t<int, inner_det, int> x = 1;
    return x;
}
""",
    "function_traits": """
CREATE_MEMBER_TYPE_CHECKERS(ft_type)
CREATE_MEMBER_DATA_CHECKERS(ft_data)
CREATE_STATIC_MEMBER_DATA_CHECKERS(ft_sdata)
CREATE_METHOD_CHECKERS(ft_method)
CREATE_STATIC_METHOD_CHECKERS(ft_smethod)
CREATE_FREE_FUNCTION_CHECKERS(ft_free)
struct Ft_class
{
    using ft_type = int;
    int ft_data;
    static int ft_sdata;
    int ft_method(int) const noexcept;
    static int ft_smethod();
};
inline int use_function_traits()
{
    static_assert(has_type_ft_type_v<Ft_class> && has_convertible_type_ft_type_v<Ft_class, long>);
    static_assert(has_data_ft_data_v<Ft_class>);
    static_assert(utils::function_traits::is_simple_functor<Ft_class>::value == false);
    using S = utils::function_traits::return_type_t<int(char)>;
    return S(0);
}
""",
    "padding_checker": """
struct Pad_a { char c; int i; };
struct Pad_b { int i; Pad_a a; };
inline int use_padding_checker()
{
    static_assert(utils::has_padding_v<Pad_a> && utils::has_padding_v<Pad_b> &&
                  !utils::has_padding_v<int>);
    return 0;
}
""",
    "fast_pimpl": """
struct Pimpl_x { int v; double w; };
inline int use_fast_pimpl()
{
    utils::fast_pimpl<Pimpl_x, sizeof(Pimpl_x), alignof(Pimpl_x)> a, b(a), c(a);
    b = a;
    c = static_cast<decltype(a)&&>(b);
    a->v = 2;
    a.get().w = 1;
    return a->v;
}
""",
    "timer": """
inline int use_timer()
{
    int n = 0;
    {
        utils::timer a([&n](const auto&) { ++n; });
        utils::timer b(static_cast<utils::timer&&>(a));
        a = static_cast<utils::timer&&>(b);
    }
    return n;
}
""",
    "clz": """
inline int use_clz()
{
    static_assert(utils::clz(1u) == 31 && utils::clz((unsigned char)1) == 7);
    return int(utils::clz(5ull));
}
""",
    "ctz": """
inline int use_ctz()
{
    static_assert(utils::ctz(8u) == 3 && utils::ctz((unsigned char)2) == 1);
    return int(utils::ctz(5ull));
}
""",
    "common": """
struct Common_fn { int n = 0; template <class T> void operator()(T&&) { ++n; } };
enum class Common_e : short { x = 3, Count = 4 };
inline int use_common()
{
    auto a = utils::make_array(1, 2, 3);
    auto b = utils::concatenate_arrays(a, utils::make_array<int, 2>(7));
    auto r = utils::make_array_from_range<1, 9, 2>();
    auto z = utils::make_zero_array<int, 3>();
    Common_fn f;
    utils::for_each_arg(f, 1, 'a');
    utils::for_each_in_tuple(f, a);
    utils::abort_if(b.size() != 5, "%s", "never");
    UTILS_ABORT_IF(r.size() != 5, "never %d", 1);
    UTILS_DEBUG_ABORT_IF(z.size() != 3);
    static_assert(utils::bits_count(5) == 3 && utils::is_power_of_2(8) &&
                  utils::next_multiple_of(8, 9) == 16);
    static_assert(utils::div(7, 2).quot == 3 && utils::num_bits<bool>() == 1);
    static_assert(utils::to_underlying(Common_e::x) == 3);
    static_assert(utils::values_in_range_t<1, 3>::size == 3);
    (void)utils::memvcmp(&a, 1, sizeof a);
    (void)utils::is_aligned<int>(&a);
    (void)utils::bit_cast<unsigned>(1.0f);
    return f.n + a[0] + b[4] + r[0] + z[0] + utils::is_equal(a, a) + utils::kNumBitsTable[3];
}
""",
    "memory/memory": """
inline int use_memory()
{
    unsigned char a[4] = {1, 2, 3, 4}, b[4] = {};
    (void)utils::memory::memcpy(b, a, 4);
    utils::memory::memmove(reinterpret_cast<std::byte*>(b), reinterpret_cast<const std::byte*>(a), 4);
    utils::memory::secure_zero_memory(reinterpret_cast<std::byte*>(a), 4);
    auto* r = utils::memory::system_memory_resource();
    void* p = r->allocate(16, 8);
    r->deallocate(p);
    (void)utils::memory::set_default_resource(utils::memory::get_default_resource());
    return b[0] + (*r == *utils::memory::null_memory_resource());
}
""",
    "memory/allocator": """
inline int use_allocator()
{
    utils::memory::allocator<int> a(utils::memory::system_memory_resource());
    utils::memory::allocator<char> b(a);
    int* p = a.allocate(3);
    a.deallocate(p);
    int* q = a.new_object<int>(5);
    a.delete_object(q);
    return (a == b) + (a != b);
}
""",
    "memory/simple_resource": """
inline int use_simple_resource()
{
    alignas(64) static unsigned char buf[1024];
    utils::memory::simple_resource<16, 16> r(reinterpret_cast<std::byte*>(buf), sizeof buf);
    void* p = r.allocate(70, 16);
    r.deallocate(p);
    return p == nullptr;
}
""",
    "memory/monotonic_buffer_resource": """
inline int use_monotonic()
{
    alignas(64) static unsigned char buf[256];
    utils::memory::monotonic_buffer_resource r(reinterpret_cast<std::byte*>(buf), sizeof buf);
    void* p = r.allocate(70, 16);
    r.deallocate(p);
    return p == nullptr;
}
""",
}
FN = {h: "use_" + {"memory/monotonic_buffer_resource": "monotonic"}.get(h, h.split("/")[-1])
      for h in USES}


def inc(h):
    return "#include <utils/%s.h>\n" % h


def run(ctx, check):
    scratch = os.path.join(ctx.build, "headers")
    os.makedirs(scratch, exist_ok=True)
    builds = [(cxx, nd) for cxx in ("g++", "clang++") for nd in ([], ["-DNDEBUG"])]
    base = ["-std=c++17"] + ctx.inc
    heads = sorted(USES) + ["utils"]
    jobs = []  # (name, source, command)
    n = 0

    def add(name, code, cmd):
        nonlocal n
        path = os.path.join(scratch, "c%d.cpp" % n)
        n += 1
        with open(path, "w") as f:
            f.write(code)
        jobs.append((name, code, cmd + ["-fsyntax-only", path]))

    everything = "".join(USES[h] for h in sorted(USES))
    for cxx, nd in builds:
        b = [cxx] + base + nd
        for h in heads:
            use = USES.get(h, everything)
            add("%s alone" % h, inc(h) + use, b)
            add("%s twice" % h, inc(h) + inc(h) + use, b)
            add("%s behind the system headers" % h, "#include <bits/stdc++.h>\n" + inc(h) + use, b)
            add("nothing but %s" % h, inc(h), b)
    pairs = list(itertools.permutations(heads, 2))
    for k, (x, y) in enumerate(pairs):
        use = everything if "utils" in (x, y) else USES[x] + USES[y]
        for i, (cxx, nd) in enumerate(builds):
            if ctx.tier == "thorough" or i == (0, 3)[(k + k // (len(heads) - 1)) % 2]:
                add("%s before %s" % (x, y), inc(x) + inc(y) + use, [cxx] + base + nd)
    for k in range(len(heads)):
        rot = heads[k:] + heads[:k]
        for order in (rot, rot[::-1]):
            for i, (cxx, nd) in enumerate(builds):
                if ctx.tier == "thorough" or i == k % 4:
                    add("all headers from %s on" % order[0],
                        "".join(map(inc, order)) + everything, [cxx] + base + nd)

    def compile_one(j):
        rc, out = ctx.sh(j[2], timeout=300)
        if rc:
            rc, out = ctx.sh(j[2], timeout=300)
        return None if rc == 0 else (rc, out)

    viol = []
    with cf.ThreadPoolExecutor(ctx.jobs) as ex:
        for j, r in zip(jobs, ex.map(compile_one, jobs)):
            if r and not viol:
                name, code, cmd = j
                err = [l for l in r[1].splitlines() if "error" in l][:4]
                viol.append(("%s%s: %s does not compile\n%s\n%s" % (
                    cmd[0], " -DNDEBUG" if "-DNDEBUG" in cmd else "", name, "\n".join(err) or r[1],
                    code[:600]), " ".join(cmd[:-1])))

    # programs of 2 and 3 source files, one also with a file in a shared library
    unit = """
%(inc)s
%(uses)s
#include <cstdio>
using namespace utils::memory;
int all_uses_%(k)d() { return %(calls)s; }
memory_resource* system_%(k)d() { return system_memory_resource(); }
memory_resource* null_%(k)d() { return null_memory_resource(); }
memory_resource* get_%(k)d() { return get_default_resource(); }
memory_resource* set_%(k)d(memory_resource* r) { return set_default_resource(r); }
memory_resource* early_%(k)d = get_default_resource();
const void* table_%(k)d() { return &utils::kNumBitsTable; }
int clz_%(k)d(unsigned v) { return (int)utils::clz(v) * 100 + (int)utils::ctz(v); }
void* take_%(k)d(memory_resource* r) { return r->allocate(32, 16); }
void give_%(k)d(memory_resource* r, void* p) { r->deallocate(p); }
memory_resource* pool_%(k)d()
{
    alignas(64) static unsigned char buf[1024];
    static utils::memory::simple_resource<16, 16> r(reinterpret_cast<std::byte*>(buf), sizeof buf);
    return &r;
}
"""
    main = """
#include <cstdio>
namespace utils { namespace memory { class memory_resource; } }
using utils::memory::memory_resource;
%(decl)s
#define CHECK(x) if (!(x)) { std::puts("not true: " #x); return 1; }
int main()
{
    int n = 0;
%(body)s
    std::puts("one program");
    return n == -1;
}
"""
    decl, bodies = "", ""
    K = 3
    for k in range(K):
        decl += ("int all_uses_%d(); memory_resource *system_%d(), *null_%d(), *get_%d(), "
                 "*set_%d(memory_resource*), *pool_%d(); extern memory_resource* early_%d; "
                 "const void* table_%d(); int clz_%d(unsigned); void* take_%d(memory_resource*); "
                 "void give_%d(memory_resource*, void*);\n" % ((k,) * 11))

    def body(ks):
        s = ""
        for i in ks:
            s += "    n += all_uses_%d();\n" % i
            s += "    CHECK(early_%d == system_%d())\n" % (i, i)
            for j in ks:
                s += ("    CHECK(system_%d() == system_%d())\n    CHECK(null_%d() == null_%d())\n"
                      "    CHECK(table_%d() == table_%d())\n    CHECK(clz_%d(40) == clz_%d(40))\n"
                      % ((i, j) * 4))
                s += ("    CHECK(set_%d(null_%d()) == system_%d())\n    CHECK(get_%d() == null_%d())\n"
                      "    CHECK(set_%d(system_%d()) == null_%d())\n    CHECK(get_%d() == system_%d())\n"
                      % (i, j, i, j, i, j, i, j, i, j))
                s += ("    { void* p = take_%d(pool_%d()); CHECK(p) give_%d(pool_%d(), p); "
                      "void* q = take_%d(pool_%d()); CHECK(q == p) give_%d(pool_%d(), q); }\n"
                      % (i, j, j, j, j, j, i, j))
        return s

    programs = []
    for cxx, nd in builds:
        for mode in ("2 files", "3 files", "2 files and a shared library"):
            programs.append((cxx, nd, mode))

    def program(p):
        cxx, nd, mode = p
        d = os.path.join(scratch, "_".join(p[2].split() + [cxx] + nd))
        os.makedirs(d, exist_ok=True)
        ks = [0, 1] if mode == "2 files" else [0, 1, 2]
        objs = []
        # the first file includes the headers in the reverse order, the second only utils.h
        for k in ks:
            order = [sorted(USES)[::-1], ["utils"], sorted(USES)][k]
            code = unit % dict(inc="".join(map(inc, order)), uses=everything, k=k,
                               calls=" + ".join(FN[h] + "()" for h in sorted(USES)))
            src = os.path.join(d, "u%d.cpp" % k)
            with open(src, "w") as f:
                f.write(code)
            obj = src[:-4] + ".o"
            cmd = [cxx] + base + nd + ["-w", "-O1", "-fPIC", "-c", src, "-o", obj]
            rc, out = ctx.sh(cmd, timeout=300)
            if rc:
                return "does not compile", out, cmd
            objs.append(obj)
        src = os.path.join(d, "main.cpp")
        with open(src, "w") as f:
            f.write(main % dict(decl=decl, body=body(ks)))
        lib = []
        if mode.endswith("library"):
            lib = [os.path.join(d, "libu.so")]
            cmd = [cxx, "-shared", objs.pop(), "-o", lib[0]]
            rc, out = ctx.sh(cmd, timeout=300)
            if rc:
                return "does not link", out, cmd
        exe = os.path.join(d, "prog")
        cmd = [cxx, "-std=c++17", src] + objs + lib + ["-Wl,-rpath," + d, "-o", exe]
        rc, out = ctx.sh(cmd, timeout=300)
        if rc:
            return "does not link", out, cmd
        rc, out = ctx.sh([exe], timeout=60)
        if rc or "one program" not in out:
            return "does not behave as one program (exit %d)" % rc, out, cmd
        return None

    with cf.ThreadPoolExecutor(ctx.jobs) as ex:
        for p, r in zip(programs, ex.map(program, programs)):
            if r and not viol:
                viol.append(("%s%s: a program of %s that all include every header %s\n%s" % (
                    p[0], " -DNDEBUG" if p[1] else "", p[2], r[0],
                    "\n".join([l for l in r[1].splitlines() if "error" in l or "multiple" in l or
                               "undefined" in l or "not true" in l][:6]) or r[1][-1500:]),
                    " ".join(r[2])))
    shutil.rmtree(scratch, ignore_errors=True)
    total = len(jobs) + len(programs)
    res = {"failed": False,
           "counters": {"evaluations": total, "distinct_nontrivial": 2 * len(pairs) + len(programs),
                        "programs_compiled": len(jobs), "programs_linked_and_run": len(programs)},
           "samples": ["clz before memory/memory, g++", "3 source files, clang++ -DNDEBUG"]}
    return {("headers", "gcc+clang", "programs"): {"rc": 0, "res": res, "wall": 0}}, viol

