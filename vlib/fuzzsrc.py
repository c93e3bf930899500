"""Source files nobody would write: token, statement and byte mutations of real ones."""
import re

TOKEN = re.compile(rb"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.'])*|<<=|>>=|<=>|->\*|\.\.\.|::|->|\+\+|--|<<|>>|&&|\|\||[-+*/%&|^<>=!]=|##|\s+|.", re.S)
OPS = [b"+", b"-", b"*", b"/", b"%", b"&", b"|", b"^", b"&&", b"||", b"<", b">", b"<=", b">=", b"==", b"!=", b"<<", b">>", b",", b"=", b"+=", b"-=", b"*=", b"/=", b"%=", b"&=", b"|=", b"^=", b"<<=", b">>=", b"?:", b"<=>", b".*", b"->*"]
UNOPS = [b"-", b"+", b"!", b"~", b"++", b"--", b"&", b"*", b"sizeof ", b"__extension__ ", b"(void)", b"(int)", b"&&", b"__real__ ", b"__imag__ ", b"co_await ", b"throw ", b"new ", b"delete ", b"noexcept ", b"alignof "]
LITS = [b"18446744073709551615UL", b"9223372036854775808ULL", b"0x8000000000000000", b"0xffffffffffffffff", b"-9223372036854775807L", b"0", b"1", b"-1", b"0u", b"1u", b"4294967295u", b"2147483648", b"1e400", b"1e-400", b"0.0f", b"1.0L",
        b"-1.0", b"0x1p-3", b"0b101", b"'a'", b"'ab'", b"'\\xff'", b"L'x'", b"u8'x'", b"U'x'", b"\"s\"", b"L\"s\"", b"nullptr", b"true", b"false", b"1i", b"0.5f16", b"((__int128)1 << 100)", b"~(unsigned __int128)0", b"(-(__int128)1)",
        b"(1 ? 2 : 3)", b"({ 1; })", b"({ int q = 2; q + 1; })", b"[] { return 1; }()", b"sizeof(int)", b"__LINE__", b"__func__", b"__func__[0]", b"(int){3}", b"(int[]){1, 2}[0]", b"this", b"__COUNTER__", b"0wb", b"3uwb"]
TYPES = [b"int", b"unsigned", b"long", b"unsigned long long", b"char", b"bool", b"_Bool", b"float", b"double", b"long double", b"__int128", b"unsigned __int128", b"_Complex double", b"_Float16", b"__bf16", b"short", b"void", b"auto", b"decltype(auto)", b"wchar_t", b"char8_t", b"char16_t",
         b"_BitInt(7)", b"unsigned _BitInt(65)", b"volatile int", b"const int", b"const unsigned long", b"_Atomic int", b"_Atomic(double)", b"int*", b"int&", b"int&&", b"typeof(1)", b"__typeof__(1 + 1)", b"decltype(1 + 1)", b"enum { AA, BB }", b"struct { int x; }", b"union { int x; float y; }", b"nullptr_t", b"__attribute__((vector_size(16))) int"]
KW = [b"int", b"unsigned", b"long", b"char", b"bool", b"_Bool", b"float", b"double", b"short", b"auto", b"signed"]
STMTS = [b"switch (1) { case 1: ; default: break; }", b"do ; while (0);", b"for (;;) break;", b"goto zz; zz: ;", b"if (1) ; else ;", b"{ }", b";", b"while (0) { continue; }", b"return;", b"return 1;", b"__asm__(\"\");", b"static int s1 = 3;", b"_Static_assert(1 + 1 == 2, \"\");",
         b"int vla[n];", b"typedef int TT;", b"extern int ee;", b"__builtin_unreachable();", b"(void)0;", b"if constexpr (1 + 1 == 2) { } else { }", b"for (int i : {1, 2, 3}) { i++; }", b"try { throw 1; } catch (int e) { e++; } catch (...) { }", b"auto [p, q] = __builtin_choose_expr(1, 1, 2);", b"auto l = [=](auto x) { return x + 1; };",
         b"asm goto(\"\" :::: zz);", b"switch (int z = 1; z) { case 0 ... 3: z++; }", b"#pragma omp parallel\n;", b"[[likely]] ;", b"[[fallthrough]];", b"int a1[] = {1, 2, 1 + 2};", b"int a2[2][3] = {[1] = {[2] = 1 + 1}};", b"struct { int b : 3; } bf = {1}; bf.b += 2; bf.b++;", b"void *vp = &&zz2; goto *vp; zz2: ;",
         b"int nested(int k) { return k + 1; }", b"__auto_type at = 1 + 2;", b"register int rg = 1; rg++;", b"_Thread_local static int tl = 1 + 1; tl++;", b"co_return 1 + 1;", b"co_yield 1;", b"_Generic(1, int: 2, default: 3);", b"__builtin_offsetof(struct { int a; }, a);", b"typeid(int).name();", b"static_assert(sizeof(int) == 4);", b"using namespace std;",
         b"enum E2 { X1 = 1 + 1, X2 = X1 << 2 };", b"struct L { int f(int a) { return a + 1; } int v = 1 + 2; };", b"const int ci = 3; int arr3[ci + 1];", b"constexpr int ce = 1 + 2;", b"int x1 = x1 + 1;", b"0 ? throw 1 : 2;", b"1 ?: 2;", b"(1, 2, 3);", b"va_arg(ap, int);"]
BYTES = [b"\0", b"\xff", b"\r", b"\\\n", b"\\", b"??=", b"??/\n", b"\"", b"'", b"/*", b"*/", b"//", b"{", b"}", b"(", b")", b"[", b"]", b";", b"#", b"#if 0\n", b"#endif\n", b"\n#include <stddef.h>\n", b"\n#include \"self\"\n", b"\n#define int long\n", b"\n#undef int\n", b"\n#line 7 \"other.c\"\n", b"\n#error\n", b"\xef\xbb\xbf", b"\xe2\x80\xae", b"\x1a", b"\t", b"\x0c",
         b"_Pragma(\"once\")", b"<:", b":>", b"<%", b"%>", b"%:", b"R\"(", b")\"", b"\\u0041", b"\\N{LATIN SMALL LETTER A}", b"$", b"@", b"`"]


def tokens(t):
    return TOKEN.findall(t)


def code_positions(ts):
    return [i for i, x in enumerate(ts) if not x.isspace() and not x.startswith((b"//", b"/*"))]


def statement_ends(ts):
    return [i for i, x in enumerate(ts) if x in (b";", b"{", b"}")]


def mutate(rng, text, others, n=None):
    """One mutated version of text; others: texts to take pieces from."""
    ts = tokens(text)
    for _ in range(n or rng.choice([1, 1, 1, 2, 2, 3, 5, 8])):
        pos = code_positions(ts)
        if not pos:
            return rng.choice(BYTES)
        i = rng.choice(pos)
        k = rng.random()
        if k < 0.16:
            c = [j for j in pos if ts[j] in OPS]
            if c:
                ts[rng.choice(c)] = rng.choice(OPS)
        elif k < 0.26:
            c = [j for j in pos if ts[j][:1].isdigit()]
            if c:
                ts[rng.choice(c)] = rng.choice(LITS)
        elif k < 0.36:
            c = [j for j in pos if ts[j] in KW]
            if c:
                ts[rng.choice(c)] = rng.choice(TYPES)
        elif k < 0.46:
            ids = [j for j in pos if re.match(rb"[A-Za-z_]", ts[j]) and ts[j] not in KW]
            if ids:
                a, b = rng.choice(ids), rng.choice(ids)
                ts[a] = ts[b]
        elif k < 0.53:
            c = [j for j in pos if re.match(rb"[\w(]", ts[j])]
            if c:
                ts.insert(rng.choice(c), rng.choice(UNOPS))
        elif k < 0.62:
            e = statement_ends(ts)
            if e:
                ts.insert(rng.choice(e) + 1, b" " + rng.choice(STMTS) + b" ")
        elif k < 0.72:
            # a statement or block from elsewhere
            o = tokens(rng.choice(others))
            e = statement_ends(o)
            f = statement_ends(ts)
            if len(e) > 2 and f:
                a = rng.randrange(len(e) - 1)
                b = min(len(e) - 1, a + rng.choice([1, 1, 2, 3, 6]))
                at = rng.choice(f) + 1
                ts[at:at] = o[e[a] + 1:e[b] + 1]
        elif k < 0.77:
            del ts[i]
        elif k < 0.80:
            ts.insert(i, ts[i])
        elif k < 0.84:
            j = rng.choice(pos)
            ts[i], ts[j] = ts[j], ts[i]
        elif k < 0.88:
            j = min(len(ts), i + rng.randint(1, 12))
            del ts[i:j]
        elif k < 0.94:
            # an identifier or literal becomes something larger
            c = [j for j in pos if re.match(rb"\w", ts[j])]
            if c:
                j = rng.choice(c)
                ts[j] = rng.choice([b"(%s)", b"(%s, %s)", b"(%s ? %s : %s)", b"(%s = %s)", b"(%s += %s)", b"%s + %s", b"!%s", b"-%s", b"%s++", b"--%s", b"({ %s; })", b"[&] { return %s; }()", b"sizeof(%s)", b"(int)%s", b"static_cast<long>(%s)", b"__builtin_constant_p(%s)", b"%s ?: %s", b"decltype(%s)(%s)", b"std::move(%s)", b"*&%s", b"M(%s)"]).replace(b"%s", ts[j])
        else:
            ts.insert(i, rng.choice(BYTES))
    out = b"".join(ts)
    k = rng.random()
    if k < 0.04 and out:
        out = out[:rng.randrange(len(out))]
    elif k < 0.07 and out:
        j = rng.randrange(len(out))
        out = out[:j] + bytes([rng.randrange(256)]) + out[j + 1:]
    if b"M(" in out and rng.random() < 0.7:
        out = b"#define M(x) (x)\n" + out
    return out


WIDE = [b"0", b"1", b"-1", b"2", b"18446744073709551615UL", b"18446744073709551614ULL", b"9223372036854775808UL", b"0x8000000000000000", b"9223372036854775807L", b"(-9223372036854775807L - 1)", b"4294967296UL", b"4294967295u", b"4294967295", b"2147483648", b"-2147483648",
        b"((__int128)1 << 64)", b"((__int128)1 << 126)", b"~(unsigned __int128)0", b"(-(__int128)1)", b"((unsigned __int128)1 << 127)", b"(__int128)0", b"(unsigned __int128)1", b"0.0", b"1.0", b"-1.0", b"-0.0", b"1e308", b"1e-320", b"0.0f", b"1.0f", b"3.4e38f", b"0.0L", b"1.0L", b"-1.0L", b"1e4000L",
        b"__builtin_inf()", b"__builtin_nan(\"\")", b"'\\xff'", b"'ab'", b"true", b"false", b"L'x'", b"sizeof(int)", b"(char)200", b"(short)-1", b"(unsigned char)255", b"(_Bool)7", b"1.5f16", b"(1 << 31)", b"(1 / 1)", b"(5 / 2.0)", b"(0 ? 1 : 2)", b"!0", b"~0", b"~0UL", b"-1UL", b"(3, 0)", b"(int)1.5", b"(unsigned)-1.0f", b"__builtin_offsetof(struct { char a; long b; }, b)", b"(__bf16)1.0f"]


def wide(lang):
    """Files in which constants of every width meet every operator."""
    out = []
    cc = lang == "cpp"
    for i, c in enumerate(WIDE):
        if not cc and c in (b"true", b"false"):
            continue
        b = []
        T = b"auto" if cc else b"__auto_type"
        b.append(b"int f%d(int p, unsigned long q, double d, __int128 w, unsigned __int128 uw, _Bool z, long double ld, float fl) {\n" % i if not cc else b"int f%d(int p, unsigned long q, double d, __int128 w, unsigned __int128 uw, bool z, long double ld, float fl) {\n" % i)
        k = 0
        for v in (b"p", b"q", b"d", b"w", b"uw", b"z", b"ld", b"fl"):
            for op in (b"+", b"-", b"*", b"/", b"%", b"&", b"|", b"^", b"<<", b">>", b"<", b">=", b"==", b"!=", b"&&", b"||"):
                isf = v in (b"d", b"ld", b"fl") or b"." in c or b"inf" in c or b"nan" in c or b"f16" in c or b"bf16" in c or b"1e" in c
                if isf and op in (b"%", b"&", b"|", b"^", b"<<", b">>"):
                    continue
                b.append(b"  %s a%d = %s %s %s;\n" % (T, k, v, op, c))
                b.append(b"  %s b%d = %s %s %s;\n" % (T, k, c, op, v))
                k += 1
            for op in (b"=", b"+=", b"*=", b"/="):
                b.append(b"  %s %s %s;\n" % (v, op, c))
        b.append(b"  if (%s) { p++; } else { p--; }\n  while (!%s) { p++; break; }\n  p = %s ? p : 1;\n  q = -%s;\n" % (c, c, c, c))
        b.append(b"  return %s;\n}\n" % c)
        out.append(b"".join(b))
    return out
