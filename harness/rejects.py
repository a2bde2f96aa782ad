"""Uses that have to be rejected by the compiler, each next to a use of the same
form that has to be accepted; every instance of a bounded space is compiled, with
two compilers."""
import concurrent.futures as cf
import os
import shutil

U = "#include <utils/%s.h>\n"


def cases_c26():
    types = [("struct T { char a[6]; };", 6, 1), ("struct T { short a; };", 2, 2),
             ("struct T { int a; char b; };", 8, 4), ("struct T { double a; int b; };", 16, 8),
             ("struct alignas(16) T { char a; };", 16, 16), ("struct T { };", 1, 1),
             ("struct alignas(32) T { char a[40]; };", 64, 32)]
    for decl, s, a in types:
        for size in sorted({1, s - 1, s, s + 1, 2 * s, s + a, 64} - {0}):
            for al in (1, 2, 4, 8, 16, 32, 64):
                yield ("%s holder <T, %d, %d>" % (decl, size, al),
                       U % "fast_pimpl" + decl +
                       "\nvoid f() { utils::fast_pimpl<T, %d, %d> h; (void)h; }" % (size, al),
                       (size, al) == (s, a))


TL = U % "type_list" + "template <int> struct A {};\n"


def tl(n, mk="A<%d>"):
    return "utils::type_list<%s>" % ", ".join(mk % i for i in range(n))


BIG = ("~std::size_t{0}", 2 ** 64 - 1)


def cases_c30():
    for n in range(5):
        idx = [("%d" % i, i) for i in range(n + 3)] + [BIG, ("~std::size_t{0} - 1", 2 ** 64 - 2)]
        for fs, f in idx:
            for cs, c in idx:
                if c == 0 and f == n and n > 0 or (f > n and c == 0 and n == 0):
                    continue  # the empty list behind the last element
                ok = f + c <= n and (c > 0 or f < n or n == 0)
                if c > 2 ** 32:  # the compilers themselves run out of memory
                    continue
                yield ("sublist of %d elements from %s, %s of them" % (n, fs, cs),
                       TL + "using T = %s;\nusing R = typename utils::sublist<T, %s, %s>::type;\n"
                       "R* p;" % (tl(n), fs, cs), ok)
        for is_, i in idx:
            yield ("%d elements without number %s" % (n, is_),
                   TL + "using R = utils::exclude_at_t<%s, %s>;\nR* p;" % (tl(n), is_), i < n)


def cases_c29():
    for n in range(5):
        for is_, i in [("%d" % i, i) for i in range(n + 3)] + [BIG]:
            if i > 2 ** 32 and n != 3:
                continue
            yield ("element %s of %d" % (is_, n),
                   TL + "using R = typename %s::template at<%s>;\nR* p;" % (tl(n), is_), i < n)
            if i <= n:
                want = i < (n + 1) // 2
                yield ("%s-th of the even types of %d" % (is_, n),
                       TL + "template <class T> struct even;\n"
                       "template <int I> struct even<A<I>> : std::bool_constant<I %% 2 == 0> {};\n"
                       "using R = typename %s::template at<%s, even>;\nR* p;" % (tl(n), is_), want)


def cases_c31():
    for n in range(5):
        vl = "utils::value_list<%s>" % ", ".join(str(i + 7) for i in range(n))
        for is_, i in [("%d" % i, i) for i in range(n + 3)] + [BIG]:
            yield ("value %s of %d" % (is_, n),
                   U % "value_list" + "auto r = %s::template at<%s>;" % (vl, is_), i < n)


def cases_c39():
    types = {"int": (-3, 5), "long": (-3, 5), "signed char": (-3, 5), "unsigned": (2, 9),
             "unsigned char": (2, 9), "unsigned long": (2, 9)}
    for t, (lo, hi) in types.items():
        for b, e in ((lo, hi), (lo, lo), (hi, hi), (lo, lo + 1)):
            for st in (0, 1, 2, hi - lo, 100) + ((-1, -2, -(hi - lo)) if lo < 0 else ()):
                ty = "static_cast<%s>(%d)"
                yield ("range of %s from %d to %d, step %d" % (t, b, e, st),
                       U % "common" + "auto r = utils::make_array_from_range<%s, %s, %s>();"
                       % (ty % (t, b), ty % (t, e), ty % (t, st) if st < 0 else st),
                       b == e or st > 0)


def cases_c27():
    head = U % "timer" + "#include <utility>\nusing T = utils::timer;\n"
    for size in (1, 2, 4, 6, 8, 9, 12, 16, 24):
        for al in (1, 2, 4, 8, 16):
            if size % al:
                continue
            for how in ("T t(f);", "T t(std::move(f));", "T t(std::as_const(f));"):
                yield ("callback of %d bytes aligned to %d, %s" % (size, al, how),
                       head + "struct alignas(%d) F { char c[%d]; void operator()(const T&) const "
                       "noexcept {} };\nvoid g() { F f{}; %s }" % (al, size, how),
                       size <= 8 and al <= 8)
    body = [("function", "void f(const T&) noexcept; void g() { T t(f); }", True),
            ("function pointer", "void (*f)(const T&); void g() { T t(f); }", True),
            ("lambda with auto", "void g() { T t([](const auto& x) { x.leaked(); }); }", True),
            ("callback with a result", "void g() { T t([](const T&) { return 1; }); }", True),
            ("moving", "T g(T& a) { return std::move(a); }", True),
            ("assigning a moved timer", "void g(T& a, T& b) { a = std::move(b); }", True),
            ("no callback", "void g() { T t; }", False),
            ("copying", "T g(T& a) { return T(a); }", False),
            ("copying a constant", "T g(const T& a) { return T(a); }", False),
            ("assigning", "void g(T& a, T& b) { a = b; }", False),
            ("assigning a constant", "void g(T& a, const T& b) { a = b; }", False),
            ("a number", "void g() { T t(5); }", False),
            ("callback without parameter", "void g() { T t([] {}); }", False),
            ("callback of another type", "void g() { T t([](int*) {}); }", False),
            ("callback that modifies the timer", "void g() { T t([](T&) {}); }", False),
            ("callback with two parameters", "void g() { T t([](const T&, int) {}); }", False)]
    # what a program sees when it asks instead of trying
    for frm, ok in (("T", 1), ("T&&", 1), ("T&", 0), ("const T&", 0), ("const T", 0),
                    ("const T&&", 0), ("volatile T&", 0), ("const volatile T&", 0),
                    ("volatile T", 0), ("const volatile T", 0), ("void (*)(const T&) noexcept", 1)):
        for q in ("std::is_constructible_v<T, %s>", "std::is_convertible_v<%s, T>",
                  "std::is_assignable_v<T&, %s>"):
            body.append((q % frm, "static_assert(%s == %d, \"\");" % (q % frm, ok), True))
    for q, ok in (("std::is_default_constructible_v<T>", 0),
                  ("std::is_nothrow_move_constructible_v<T>", 1),
                  ("std::is_nothrow_move_assignable_v<T>", 1)):
        body.append((q, "static_assert(%s == %d, \"\");" % (q, ok), True))
    for name, code, ok in body:
        yield ("timer: " + name, head + code, ok)


def cases_c35():
    head = U % "detector" + "#include <new>\n#include <utility>\nusing N = utils::nonesuch;\n"
    body = [("a reference", "N& f(N& x) { return x; }", True),
            ("a pointer", "N* f(N* x) { return x; }", True),
            ("the size", "int a = sizeof(N);", True),
            ("an object", "void f() { N n; }", False),
            ("an object from braces", "void f() { N n{}; }", False),
            ("a new object", "N* f() { return new N(); }", False),
            ("a copy", "void f(N& x) { N n(x); }", False),
            ("a copy on the heap", "N* f(N& x) { return new N(x); }", False),
            ("a moved object on the heap", "N* f(N& x) { return new N(std::move(x)); }", False),
            ("assignment", "void f(N& x, N& y) { x = y; }", False),
            ("move assignment", "void f(N& x, N& y) { x = std::move(y); }", False),
            ("destruction", "void f(N& x) { x.~N(); }", False),
            ("deletion", "void f(N* x) { delete x; }", False),
            ("an argument", "void g(N); void f(N& x) { g(x); }", False),
            ("a member", "struct S { N n; }; void f() { S s; }", False),
            ("an array", "void f() { N n[2]; }", False)]
    for name, code, ok in body:
        yield ("placeholder: " + name, head + code, ok)


def run(ctx, check):
    cases = list(globals()["cases_" + ctx.id.lower()]())
    cxx = [["g++"], ["clang++"]]
    scratch = os.path.join(ctx.build, "rejects")
    os.makedirs(scratch, exist_ok=True)
    jobs = []
    for k, (name, code, ok) in enumerate(cases):
        path = os.path.join(scratch, "%d.cpp" % k)
        with open(path, "w") as f:
            f.write(code + "\n")
        for c in cxx:
            cmd = c + ["-std=c++17", "-w", "-fsyntax-only"] + ctx.inc + [path]
            jobs.append((name, code, ok, cmd))

    def one(j):
        name, code, ok, cmd = j
        rc, out = ctx.sh(cmd, timeout=200)
        if (rc == 0) == ok and rc >= 0:
            return None
        rc, out = ctx.sh(cmd, timeout=200)
        if rc < 0:
            return None, "the compiler gave no answer"
        return None if (rc == 0) == ok else (rc, out)

    viol = []
    with cf.ThreadPoolExecutor(ctx.jobs) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            if r and not viol:
                name, code, ok, cmd = j
                why = [l for l in r[1].splitlines() if "error" in l][:3]
                viol.append(("%s: %s is %s\n%s\n%s" % (
                    cmd[0], name, "rejected although it is valid" if ok else
                    "accepted although it is invalid", code, "\n".join(why)),
                    "echo the source above | %s -x c++ -" % " ".join(cmd[:-1])))
    shutil.rmtree(scratch, ignore_errors=True)
    n = len(jobs)
    key = {"states": n, "transitions": n, "traces": n} if check["level"] == "model_checking" \
        else {"evaluations": n, "distinct_nontrivial": 2 * sum(not c[2] for c in cases)}
    key["programs_compiled"] = n
    key["programs_to_be_rejected"] = 2 * sum(not c[2] for c in cases)
    res = {"failed": False, "counters": key, "samples": [cases[len(cases) // 2][0]]}
    return {("rejects", "gcc+clang", "rejected_uses"): {"rc": 0, "res": res, "wall": 0}}, viol
