"""What each property's check runs, within which bounds."""

CRATES = ["core", "rips", "grpph"]

COMMON_ASSUMPTIONS = [
    "memory allocation succeeds; a single thread",
    "std's SipHash keys are fixed constants (RandomState), so one iteration order per std HashMap is explored",
    "IR of the dev profile at opt-level 1 with overflow checks and debug assertions; counterexamples are replayed in dev and release",
    "trusted: rustc's lowering to LLVM IR, the interpreter in engine/ (validated natively on sampled path models of each run), Z3",
]

PROPS = {}


def prop(id, crate, runs, reach, **kw):
    PROPS[id] = dict(crate=crate, runs=runs, reach=reach, **kw)


prop(
    "C01",
    "core",
    dict(
        quick=[("h_field", p, f"every pair of non-zero elements of Z/{p}") for p in (2, 3, 5, 7, 11, 13)]
        + [("h_field_laws", p, f"every triple of non-zero elements of Z/{p}") for p in (2, 3, 5, 7, 11, 13)],
    ),
    ["fields: end", "fields: laws end"],
)

prop(
    "C02",
    "core",
    dict(
        quick=[
            ("h_rational", 404, "sums of two rationals, |numerator| <= 4, 1 <= denominator <= 4, unreduced inputs included"),
            ("h_rational", 10404, "products of two rationals, |numerator| <= 4, 1 <= denominator <= 4"),
            ("h_rational", 10506, "products, |numerator| <= 6, denominator <= 5"),
            ("h_rational", 20620, "inverses, |numerator| <= 20, denominator <= 6"),
            *[("h_rational_wide", s + 100 * t, "sums, products and inverses of fractions of up to 31 bits: eight neighbours of each of two large numbers over fixed denominators") for s, t in [(0, 0), (0, 1), (1, 2), (2, 3), (5, 5), (5, 4), (3, 4)]],
            ("h_standard_q", 204, "R = DV for every strictly upper triangular 4x4 integer matrix with entries in -2..2"),
            ("h_standard_q", 10202, "R = DV for every 2x2 integer matrix with entries in -2..2"),
            ("h_standard_q", 10103, "R = DV for every 3x3 integer matrix with entries in -1..1"),
        ],
        thorough=[("h_rational", 505, "sums, bounds 5 and 5"), ("h_rational", 408, "sums, |numerator| <= 8, denominator <= 4"), ("h_rational", 10606, "products, bounds 6 and 6")],
    ),
    ["rational: sum vanishes", "rational: end", "rational: reduction end"],
    assumptions=["numerators and denominators within the bounds stated: the i32 arithmetic of larger ones is outside"],
)


def size(n):
    return 270 if n == 99 else n


def fixed(n):
    """From nine on, inputs are mostly fixed (see LARGE in the harness)."""
    return " of which all but two coefficients and one row are fixed" if n >= 9 else ""


def col(n, rows, levels, mode, p):
    how = ["to_sorted_vec", "drain_sorted", "add_tuples, pop_pivot to the end", "clone_pivot and pop_pivot to the end", "drain_sorted in pieces, an entry added in between", "a copy and the column to_sorted_vec"][mode]
    return ("h_col_sorted", ((mode * 100 + levels) * 100 + rows) * 10000 + n * 100 + p, f"{size(n)} entries on {size(rows)} rows,{fixed(n)}, {levels} filtration values, over Z/{p}: {how}")


def ops(steps, rows, levels, room, p):
    return ("h_col_ops", (((room * 100 + levels) * 100 + rows) * 100 + steps) * 100 + p, f"every sequence of {steps} operations with at most {room} additions, {rows} rows, {levels} filtration values, over Z/{p}")


prop(
    "C03",
    "core",
    dict(
        quick=[col(3, 3, 3, m, 3) for m in (0, 1, 2, 3)]
        + [col(3, 2, 2, m, 2) for m in (0, 1, 2, 3)]
        + [col(4, 3, 2, m, 5) for m in (0, 2)]
        + [col(3, 2, 2, 4, 3), col(4, 3, 2, 4, 5), col(3, 3, 2, 5, 3), col(40, 12, 5, 4, 3), col(40, 12, 5, 5, 3)]
        + [col(40, 12, 5, 0, 3), col(40, 12, 5, 1, 3), col(60, 30, 6, 2, 5), col(99, 20, 1, 3, 2), col(99, 99, 40, 0, 7)]
        + [col(5, 3, 3, 3, 3), col(6, 3, 2, 2, 3), ops(4, 2, 2, 4, 3), ops(4, 2, 2, 4, 2), ops(5, 2, 2, 5, 3)]
        + [("h_col_entries", p, f"scaling, adding and unit entries, any element of Z/{p}") for p in (2, 3, 7)],
        thorough=[col(5, 4, 4, m, 5) for m in (0, 1, 2, 3)] + [ops(6, 3, 2, 6, 3)],
    ),
    ["columns: everything cancels", "columns: some terms merged or cancelled", "columns: end", "columns: ops end", "columns: entries end"],
)


def dig(*a):
    "two decimal digits per argument, first argument last"
    n = 0
    for x in reversed(a):
        n = n * 100 + x
    return n


def product(p, rows, inner, cols, ll, lr):
    if rows >= 9:
        return ("h_product", dig(p, rows, inner, cols, ll, lr), f"a fixed product of a {rows}x{inner} and a {inner}x{cols} matrix over Z/{p}, {ll} and {lr} entries per column, but for four coefficients and two rows")
    return ("h_product", dig(p, rows, inner, cols, ll, lr), f"every product of a {rows}x{inner} and a {inner}x{cols} matrix over Z/{p}, at most {ll} and {lr} entries per column, repeated rows included")


def mostly(p, r, c, l):
    return f"{size(r)}x{size(c)} matrices over Z/{p} with {l} entries per column, fixed but for two coefficients and one row each"


def assoc(p, n, l):
    if n >= 9:
        return ("h_product_assoc", dig(p, n, l), "(AB)C = A(BC): " + mostly(p, n, n, l))
    return ("h_product_assoc", dig(p, n, l), f"(AB)C = A(BC), {n}x{n} over Z/{p}, at most {l} entries per column")


def summed(p, r, c, l):
    if r >= 9:
        return ("h_sum", dig(p, r, c, l), mostly(p, r, c, l))
    return ("h_sum", dig(p, r, c, l), f"every sum of two {r}x{c} matrices over Z/{p}, at most {l} entries per column")


def wrapped(p, r, c, l):
    if r >= 9:
        return ("h_wrappers", dig(p, r, c, l), mostly(p, r, c, l))
    return ("h_wrappers", dig(p, r, c, l), f"every {r}x{c} matrix over Z/{p}, at most {l} entries per column")


prop(
    "C04",
    "core",
    dict(
        quick=[product(3, 2, 2, 1, 2, 2), product(3, 3, 3, 1, 1, 2), product(2, 2, 2, 1, 2, 2), product(5, 2, 2, 1, 1, 2), assoc(2, 2, 2), assoc(3, 3, 1), summed(3, 2, 2, 2), summed(2, 2, 2, 2), wrapped(3, 2, 2, 2), wrapped(5, 2, 3, 3), product(3, 12, 12, 12, 5, 5), assoc(3, 12, 5), summed(3, 40, 20, 12), wrapped(3, 40, 20, 12)],
        thorough=[product(2, 3, 3, 2, 2, 2), summed(5, 3, 2, 2), wrapped(3, 3, 3, 3), assoc(5, 3, 1)],
    ),
    ["combine: product end", "combine: associativity end", "combine: sum end", "combine: wrappers end"],
)

ADAPT = lambda e: (lambda p, r, c, l: (e, dig(p, r, c, l), mostly(p, r, c, l) + "; the basis likewise" if r >= 9 else f"every {r}x{c} matrix over Z/{p}, at most {l} entries per column, any order and filtration"))
adapt, rev, cons = ADAPT("h_adaptors"), ADAPT("h_reverse"), ADAPT("h_construct")

prop(
    "C05",
    "core",
    dict(quick=[adapt(3, 0, 0, 1), adapt(3, 1, 0, 1), adapt(3, 2, 2, 2), adapt(2, 2, 2, 2), adapt(3, 2, 2, 3), adapt(2, 3, 3, 2), adapt(3, 12, 12, 6), adapt(3, 40, 40, 6)], thorough=[adapt(5, 2, 3, 2), adapt(3, 3, 2, 3)]),
    ["adaptors: end"],
)
prop(
    "C06",
    "core",
    dict(quick=[rev(3, 0, 0, 1), rev(3, 1, 1, 1), rev(3, 2, 2, 2), rev(3, 2, 2, 3), rev(2, 2, 2, 2), rev(3, 20, 40, 6)], thorough=[rev(2, 3, 3, 2)]),
    ["reverse: end"],
)


def cache(p, r, c, l, req):
    if req >= 9:
        return ("h_cache", dig(p, r, c, l, req), f"{size(req)} column requests, all but the last fixed, half of them with filtration values, every third iterator kept open, on " + mostly(p, r, c, l))
    return ("h_cache", dig(p, r, c, l, req), f"every sequence of {req} column requests, with or without filtration values, iterators kept open or not, on every {r}x{c} matrix over Z/{p} with at most {l} entries per column")


def consol(p, r, l):
    if l >= 9:
        return ("h_consolidate", dig(p, r, l), f"lists of {size(l)} entries on {size(r)} rows over Z/{p},{fixed(l)}")
    return ("h_consolidate", dig(p, r, l), f"every list of at most {l} entries on {r} rows over Z/{p}")


prop(
    "C07",
    "core",
    dict(
        quick=[cache(3, 2, 2, 1, 3), cache(2, 2, 2, 2, 4), cache(3, 3, 3, 1, 3), consol(3, 3, 3), consol(2, 3, 4), consol(3, 3, 5), cache(3, 12, 80, 3, 99), consol(3, 12, 12), consol(3, 30, 40), consol(5, 99, 99)],
        thorough=[cache(3, 3, 3, 1, 4), cache(3, 2, 2, 2, 5), consol(5, 4, 6)],
    ),
    ["cache: two iterators open", "cache: end", "consolidate: entries merged", "consolidate: end"],
)


def eqcol(p, rows, l, r):
    if r >= 9:
        return ("h_eq_on_col", dig(p, rows, l, r), f"a column of {l} entries on {size(rows)} rows over Z/{p},{fixed(l)}, and the same backwards with a multiple of any row added twice")
    return ("h_eq_on_col", dig(p, rows, l, r), f"columns of at most {l} and {r} entries on {rows} rows over Z/{p}, in any order, repeated rows included")


prop(
    "C08",
    "core",
    dict(
        quick=[cons(3, 0, 0, 1), cons(3, 1, 1, 1), cons(3, 2, 2, 2), cons(2, 3, 3, 2), eqcol(3, 2, 2, 3), eqcol(3, 3, 3, 3), eqcol(2, 3, 3, 3)]
        + [("h_lookup", n, f"every permutation of {n} elements as a basis") for n in (0, 1, 4, 6)]
        + [eqcol(3, 20, 30, 30), eqcol(3, 99, 70, 70), cons(3, 20, 40, 3)]
        + [("h_lookup", n, f"{size(n)} elements in a fixed order with any one moved") for n in (20, 99)],
        thorough=[("h_lookup", 8, "every permutation of 8 elements as a basis"), cons(5, 3, 3, 2), eqcol(5, 3, 4, 4)],
    ),
    ["construct: end", "eq_on_col: equal", "eq_on_col: different", "lookup: end"],
)


def std(p, n, mode, levels, perm):
    kind = ["strictly upper triangular", "", "strictly lower triangular", "two-row"][mode % 10]
    listed = ", one entry listed several times" if mode >= 10 else ""
    if n >= 9:
        return ("h_standard", dig(p, n, mode, levels, perm), f"{kind or 'full'} {n}x{n} matrices over Z/{p} of up to six entries per column, fixed but for two coefficients and one row{listed}, names of up to 64 bits, {levels} filtration values, {'any element of the basis moved' if perm else 'basis in order'}")
    return ("h_standard", dig(p, n, mode, levels, perm), f"every {kind} {n}x{n} matrix over Z/{p}{listed}, {levels} filtration values, {'every order of the basis' if perm else 'basis in order'}")


prop(
    "C09",
    "core",
    dict(
        quick=[std(2, 0, 1, 1, 0), std(3, 1, 1, 1, 0), std(2, 3, 0, 1, 0), std(3, 3, 0, 2, 1), std(3, 2, 1, 2, 1), std(2, 3, 1, 1, 0), std(2, 3, 1, 2, 0), std(2, 3, 1, 3, 1), std(3, 4, 0, 1, 0), std(2, 4, 0, 3, 0), std(2, 5, 0, 1, 0), std(7, 3, 0, 1, 0), std(3, 2, 2, 2, 1), std(3, 3, 3, 1, 0), std(3, 4, 3, 1, 0), std(3, 3, 3, 2, 1), std(3, 3, 13, 1, 0), std(2, 3, 11, 1, 0), std(3, 12, 0, 1, 0), std(3, 24, 0, 5, 0), std(3, 40, 0, 5, 1), std(2, 40, 0, 5, 1), std(2, 60, 0, 9, 1)],
        thorough=[std(2, 6, 0, 1, 0), std(2, 4, 1, 1, 0), std(3, 3, 1, 1, 0), std(2, 4, 0, 4, 1), std(3, 4, 0, 2, 1), std(5, 3, 3, 1, 0), std(3, 4, 3, 2, 1), std(2, 3, 11, 2, 1)],
    ),
    ["standard: R of full rank", "standard: R with two zero columns", "standard: end"],
)


def diagram(p, levels, mode, dims):
    how = {
        0: "standard reduction, dimension by dimension",
        1: "standard reduction, in the order of the filtration",
        2: "clearing",
        3: "standard reduction of the reversed transpose",
        4: "clearing on the reversed transpose",
        5: "standard reduction of the transpose with mirrored labels",
    }[mode % 10]
    if mode >= 10:
        how += ", one entry listed several times"
    if dims[0] == "9":
        return ("h_diagram", int("1" + dims) * 1000000 + dig(p, levels, mode), f"the {dims[2]}-skeleton of the simplex with {dims[1]} vertices over Z/{p}, some cells scaled by any units, filtered by the longest edge, one length open, {levels} lengths, names of up to 64 bits: {how}")
    return ("h_diagram", int("1" + dims) * 1000000 + dig(p, levels, mode), f"every filtered complex over Z/{p} with cells of dimensions {','.join(dims)}, {levels} filtration values: {how}")


def diagrams(modes):
    return dict(
        quick=[diagram(2, 1, m, "00112") for m in modes] + [diagram(3, 1, m, "0112") for m in modes] + [diagram(2, 1, m, "0001112") for m in modes] + [diagram(2, 2, m, "00112") for m in modes] + [diagram(2, 2, m, "0011") for m in modes]
        + [diagram(*a) for m in modes for a in [(3, 4, m, "942"), (3, 4, m, "952"), (5, 3, m, "952"), (3, 5, m, "962"), (3, 1, m + 10, "952"), (2, 6, m, "963")]]
        + [diagram(2, 1, m + 10, "00112") for m in modes] + [diagram(3, 1, m + 10, "0112") for m in modes] + [diagram(2, 1, m + 10, "0001112") for m in modes]
        + [diagram(2, 2, m, dims) for m in modes for dims in ("0022", "1122", "01133", "0", "3")],
        thorough=[diagram(3, 1, m, "0001112") for m in modes] + [diagram(2, 1, m, "00111122") for m in modes] + [diagram(2, 1, m, "0011223") for m in modes] + [diagram(3, 2, m, "00112") for m in modes] + [diagram(5, 1, m, "00112") for m in modes],
    )


prop("C10", "core", diagrams((0, 1)), ["diagram: nothing is paired", "diagram: two pairs", "diagram: standard end"])
prop("C11", "core", diagrams((2,)), ["diagram: nothing is paired", "diagram: two pairs", "diagram: a column is cleared", "diagram: clearing end"])
prop("C12", "core", diagrams((3, 4, 5)), ["diagram: nothing is paired", "diagram: two pairs", "diagram: cohomology end", "diagram: cohomology in ascending order end"])

POINTS = {90: 100, 91: 255, 92: 1000, 93: 65535, 94: 2**32 - 1}


def ripsindex(n, k, l, asc=0):
    return ("h_rips_index", dig(n, k, l, asc), f"every {'ascending ' if asc else ''}sequence of {k} and of {l} among {POINTS.get(n, n)} points")


prop(
    "C13",
    "rips",
    dict(
        quick=[ripsindex(4, 0, 1), ripsindex(4, 1, 1), ripsindex(4, 2, 3), ripsindex(4, 3, 2, 1), ripsindex(5, 3, 3), ripsindex(90, 3, 3, 1), ripsindex(91, 3, 2), ripsindex(92, 2, 2), ripsindex(92, 6, 5), ripsindex(93, 3, 3), ripsindex(94, 1, 1), ripsindex(94, 2, 1), ripsindex(20, 5, 5, 1), ripsindex(15, 15, 14, 1), ripsindex(7, 20, 21), ripsindex(10, 12, 12), ripsindex(90, 9, 9), ripsindex(91, 7, 7, 1), ripsindex(92, 4, 3, 1), ripsindex(20, 3, 3), ripsindex(5, 4, 4)],
        thorough=[ripsindex(90, 4, 4, 1), ripsindex(93, 3, 3, 1), ripsindex(93, 4, 3, 1), ripsindex(40, 11, 10, 1), ripsindex(90, 7, 9)],
    ),
    ["rips index: end", "rips index: no vertices"],
    assumptions=["(points+1)^vertices <= 2^64: beyond it an index does not fit its 64 bits"],
)


def distances(levels):
    return {0: "any non-negative floats", 97: "two of them any in [1, 1 + 2^-42], the others fixed there", 98: "two of them any floats, the others fixed all over the floats"}.get(levels, f"{levels} distinct values")


def ripsbases(n, top, levels):
    how = distances(levels)
    return ("h_rips_bases", dig(n, top, levels), f"every symmetric distance matrix on {n} points ({how}), dimensions up to {top}")


prop(
    "C14",
    "rips",
    dict(
        quick=[ripsbases(0, 1, 1), ripsbases(1, 2, 1), ripsbases(3, 0, 0), ripsbases(3, 2, 0), ripsbases(4, 1, 8), ripsbases(4, 2, 8), ripsbases(5, 2, 2), ripsbases(4, 3, 3), ripsbases(2, 2, 3), ripsbases(6, 3, 97), ripsbases(6, 3, 98), ripsbases(7, 1, 98)],
        thorough=[ripsbases(4, 1, 0), ripsbases(5, 2, 3), ripsbases(5, 4, 2), ripsbases(4, 3, 6)],
    ),
    ["rips bases: several simplices in a dimension", "rips bases: a dimension without simplices", "rips bases: end"],
)


def ripsmat(p, n, k, mode):
    which = "every simplex" if n < 99 or not mode else "every simplex through given others,"
    return ("h_rips_matrices", dig(p, n, k, mode), f"{'coboundary' if mode else 'boundary'} of {which} with {k} of {270 if n == 99 else n} vertices, over Z/{p}")


prop(
    "C15",
    "rips",
    dict(
        quick=[ripsmat(2, 3, 1, 0), ripsmat(3, 3, 3, 0), ripsmat(2, 4, 4, 0), ripsmat(3, 7, 4, 0), ripsmat(5, 20, 3, 0), ripsmat(3, 90, 4, 0), ripsmat(3, 99, 6, 0)]
        + [ripsmat(3, 2, 1, 1), ripsmat(3, 3, 2, 1), ripsmat(3, 3, 3, 1), ripsmat(2, 4, 2, 1), ripsmat(3, 5, 2, 1), ripsmat(3, 6, 3, 1), ripsmat(5, 5, 3, 1), ripsmat(3, 8, 4, 1), ripsmat(7, 9, 2, 1), ripsmat(3, 99, 1, 1)],
        thorough=[ripsmat(3, 20, 5, 0), ripsmat(13, 8, 5, 0), ripsmat(3, 92, 4, 0), ripsmat(3, 7, 3, 1), ripsmat(7, 7, 4, 1), ripsmat(3, 12, 4, 1), ripsmat(2, 20, 2, 1), ripsmat(11, 9, 6, 1), ripsmat(3, 99, 2, 1)],
    ),
    ["rips matrices: vertex", "rips matrices: boundary of a boundary", "rips matrices: boundary end", "rips matrices: no coface", "rips matrices: coboundary end"],
)


def ripsval(p, n, k, levels):
    how = distances(levels)
    return ("h_rips_values", dig(p, n, k, levels), f"every simplex with {k} vertices, every symmetric distance matrix on {n} points ({how}), over Z/{p}")


prop(
    "C16",
    "rips",
    dict(
        quick=[ripsval(2, 3, 1, 3), ripsval(2, 3, 2, 0), ripsval(3, 3, 3, 2), ripsval(3, 4, 2, 3), ripsval(3, 4, 3, 4), ripsval(2, 4, 4, 3), ripsval(3, 5, 3, 2), ripsval(2, 5, 2, 3), ripsval(3, 7, 4, 97), ripsval(3, 7, 3, 98), ripsval(2, 9, 2, 98)],
        thorough=[ripsval(2, 4, 2, 0), ripsval(3, 4, 3, 0), ripsval(3, 5, 3, 3), ripsval(2, 6, 3, 2)],
    ),
    ["rips values: end"],
)


def ripsph(p, n, top, levels, mode):
    how = ["homology", "homology with clearing", "cohomology", "cohomology with clearing"][mode]
    vals = distances(levels)
    return ("h_rips_diagram", dig(p, n, top, levels, mode), f"every symmetric distance matrix on {n} points ({vals}), dimensions up to {top}, over Z/{p}: {how}")


prop(
    "C17",
    "rips",
    dict(
        quick=[ripsph(3, n, top, levels, m) for n, top, levels in ((0, 1, 1), (1, 1, 1), (2, 3, 2), (3, 3, 2), (3, 1, 3)) for m in range(4)]
        + [ripsph(2, 4, 1, 2, m) for m in range(4)]
        + [ripsph(3, 4, 2, 2, m) for m in range(4)]
        + [ripsph(3, 4, 1, 4, 3), ripsph(2, 5, 1, 2, 3), ripsph(3, 5, 1, 2, 1), ripsph(3, 5, 2, 2, 0), ripsph(2, 5, 2, 2, 2), ripsph(2, 3, 1, 0, 3), ripsph(3, 4, 0, 5, 3), ripsph(3, 4, 0, 5, 2)]
        + [ripsph(3, 6, 1, 97, m) for m in range(4)]
        + [ripsph(3, 6, 2, 98, m) for m in range(4)],
        thorough=[ripsph(3, 4, 1, 6, m) for m in range(4)] + [ripsph(2, 7, 1, 98, m) for m in range(4)] + [ripsph(2, 5, 3, 2, 3), ripsph(3, 5, 1, 3, 3), ripsph(3, 4, 1, 0, 3), ripsph(2, 6, 1, 2, 3)],
    ),
    ["rips diagram: a loop that is filled", "rips diagram: components that merge", "rips diagram: end"],
)

DIGRAPHS = ["every pair", "acyclic", "0 to others to last, 0 to last", "0 to others to last to 0, 0 to last", "a cycle by one or two steps", "a cycle in both directions", "a cycle", "0 to others to last", "a fixed one among eight nodes, three edges open, weights of 31 binary digits near 10^-18", "a fixed one among eight nodes, one edge open, weights of 31 binary digits near 10^21"]


def weighted(entry, n, kind, levels, infinite, last=0):
    par, least = (last, 0) if entry == "h_grpph_filtration" else (0, last)
    w = (f"weights {least}..{least + levels - 1}" if kind < 8 else f"{levels} weights") + (", infinite weights" if infinite else "") + (", one parallel edge" if par else "")
    return (entry, dig(n, kind, levels, infinite, last), f"every weighted digraph on {270 if n == 99 else n} nodes ({DIGRAPHS[kind]}), {w}")


def filtered(n, kind, levels, ground, p=None, as_map=0):
    times = {0: "any finite times", 1: "equal times"}.get(levels, f"{levels} distinct times")
    b = f"every filtered digraph on {270 if n == 99 else n} nodes{', four of them with edges' if n > 8 else ''} ({DIGRAPHS[kind]}), {times}, {['no edge', 'every edge', 'any subset of the edges'][ground]} grounded"
    if p:
        return ("h_grpph_cells", dig(p, n, kind, levels, ground, as_map), b + f"{', in a map' if as_map else ''}, over Z/{p}")
    return ("h_grpph_bars", dig(n, kind, levels, ground), b)


W = weighted
prop(
    "C18",
    "grpph",
    dict(
        quick=[W("h_grpph_filtration", *a) for a in [(0, 0, 1, 0, 0), (1, 0, 2, 1, 0), (2, 0, 3, 1, 1), (3, 0, 2, 1, 0), (3, 0, 2, 0, 1), (3, 3, 4, 1, 0), (3, 0, 4, 0, 0), (4, 3, 3, 1, 0), (4, 1, 3, 0, 0), (5, 6, 3, 1, 0), (4, 4, 1, 1, 0), (8, 8, 3, 1, 0), (61, 8, 2, 1, 0), (50, 9, 3, 1, 0)]],
        thorough=[W("h_grpph_filtration", 99, 8, 3, 1, 0)] + [W("h_grpph_filtration", *a) for a in [(4, 3, 3, 1, 1), (4, 0, 2, 0, 0), (3, 0, 4, 1, 1), (5, 4, 2, 0, 0), (5, 2, 3, 0, 1), (6, 6, 3, 0, 0)]],
    ),
    ["grpph filtration: a pair without an edge", "grpph filtration: an edge of infinite weight", "grpph filtration: end"],
    assumptions=["integer weights within the bounds stated"],
)
prop(
    "C19",
    "grpph",
    dict(
        quick=[filtered(0, 0, 1, 0, 3), filtered(1, 0, 1, 0, 3), filtered(2, 0, 0, 2, 3), filtered(3, 6, 0, 0, 3), filtered(3, 0, 3, 0, 3), filtered(3, 0, 2, 1, 5), filtered(3, 1, 0, 2, 3), filtered(4, 1, 3, 0, 3), filtered(4, 1, 2, 1, 3), filtered(4, 3, 2, 0, 3), filtered(4, 3, 1, 2, 2), filtered(4, 2, 2, 2, 3), filtered(5, 2, 2, 0, 5), filtered(4, 4, 1, 0, 3), filtered(4, 2, 0, 0, 3), filtered(5, 7, 3, 1, 3), filtered(40, 2, 2, 0, 3), filtered(3, 0, 2, 1, 3, 1), filtered(4, 2, 2, 0, 3, 1)],
        thorough=[filtered(3, 0, 0, 0, 3), filtered(4, 3, 2, 2, 2), filtered(4, 0, 2, 0, 3), filtered(5, 3, 2, 0, 3), filtered(5, 3, 2, 1, 3), filtered(4, 4, 2, 0, 7), filtered(4, 5, 2, 0, 3), filtered(4, 3, 3, 0, 3), filtered(40, 3, 2, 0, 3), filtered(4, 3, 1, 2, 3, 1)],
    ),
    ["grpph cells: back and forth", "grpph cells: triangle", "grpph cells: long square", "grpph cells: end"],
)
prop(
    "C20",
    "grpph",
    dict(
        quick=[filtered(0, 0, 1, 0), filtered(1, 0, 1, 0), filtered(2, 0, 3, 2), filtered(3, 0, 3, 0), filtered(3, 0, 3, 1), filtered(4, 1, 2, 0), filtered(4, 1, 2, 1), filtered(4, 2, 3, 0), filtered(4, 2, 3, 1), filtered(4, 3, 3, 0), filtered(4, 3, 1, 2), filtered(4, 2, 2, 2), filtered(3, 0, 1, 2), filtered(5, 7, 3, 1), filtered(5, 7, 2, 0)]
        + [W("h_grpph_entry", *a) for a in [(0, 0, 1, 0, 1), (1, 0, 1, 0, 1), (2, 0, 3, 1, 1), (3, 0, 3, 0, 1), (3, 0, 2, 1, 1), (3, 0, 2, 0, 0), (4, 2, 3, 0, 1), (4, 3, 2, 0, 1), (5, 2, 2, 0, 1), (4, 5, 1, 0, 1), (5, 6, 2, 0, 1), (5, 7, 2, 0, 2), (5, 7, 3, 0, 1), (8, 8, 3, 1, 0), (50, 8, 2, 1, 0), (8, 9, 3, 1, 0), (99, 9, 1, 0, 0)]],
        thorough=[filtered(3, 0, 0, 0), filtered(3, 0, 2, 2), filtered(4, 3, 2, 2), filtered(3, 0, 3, 2), filtered(5, 3, 2, 0), filtered(5, 2, 3, 1)] + [W("h_grpph_entry", *a) for a in [(5, 3, 2, 0, 1), (4, 5, 2, 0, 1), (4, 4, 2, 0, 1), (3, 0, 4, 1, 1), (5, 4, 1, 0, 1)]],
    ),
    ["grpph bars: two loops are filled", "grpph bars: a loop that is never filled", "grpph bars: components that merge", "grpph bars: end", "grpph bars: entry point end"],
    max_steps=4_000_000_000,
    assumptions=["integer weights within the bounds stated where the entry point is called", "no edge from a node to itself"],
)
prop(
    "C21",
    "grpph",
    dict(
        quick=[W("h_grpph_reps", *a) for a in [(0, 0, 1, 0, 1), (1, 0, 1, 0, 1), (2, 0, 3, 1, 1), (3, 0, 2, 0, 1), (3, 0, 2, 1, 1), (3, 0, 2, 0, 0), (4, 3, 2, 0, 1), (4, 2, 3, 1, 1), (5, 2, 2, 0, 1), (4, 5, 1, 0, 1), (5, 6, 2, 0, 1), (4, 4, 1, 0, 1), (5, 7, 2, 0, 2), (8, 8, 3, 1, 0), (12, 8, 2, 1, 0), (99, 9, 1, 0, 0)]],
        thorough=[W("h_grpph_reps", *a) for a in [(3, 0, 3, 0, 1), (5, 3, 2, 0, 1), (4, 5, 2, 0, 1), (4, 4, 2, 0, 1), (3, 0, 4, 1, 1), (5, 4, 1, 0, 1)]],
    ),
    ["grpph reps: a representative of four edges", "grpph reps: two representatives", "grpph reps: end"],
    max_steps=4_000_000_000,
    assumptions=["integer weights within the bounds stated", "no edge from a node to itself"],
)


def tool(n, top, levels, form):
    num = ["d", "0.0d", "1.d0", "de1", "1.0d", "7.9d", "16777210d", "1.2345678901d"][form % 10]
    return ("h_rips_program", dig(n, top, levels, form), f"every symmetric {n}x{n} matrix of numbers {num}, {levels} values of the digit d" + (", lines ending in CR LF, none after the last" if form >= 10 else "") + (", no argument" if top == 99 else f", argument {top}"))


prop(
    "C22",
    "rips",
    dict(
        quick=[tool(0, 1, 2, 0), tool(1, 0, 2, 0), tool(2, 1, 10, 0), tool(2, 1, 10, 1), tool(3, 1, 3, 0), tool(3, 1, 10, 1), tool(3, 99, 2, 0), tool(3, 0, 4, 3), tool(3, 1, 5, 11), tool(4, 1, 3, 1), tool(4, 2, 2, 2), tool(4, 3, 2, 10), tool(5, 1, 2, 0), tool(5, 99, 2, 12), tool(3, 1, 5, 4), tool(4, 1, 3, 4), tool(4, 1, 3, 5), tool(3, 1, 3, 6), tool(3, 1, 4, 17)],
        thorough=[tool(4, 1, 4, 0), tool(4, 99, 4, 1), tool(5, 2, 2, 1), tool(4, 2, 3, 3), tool(3, 2, 10, 2)],
    ),
    ["rips program: a loop is printed", "rips program: a finite bar is printed", "rips program: end"],
    assumptions=["texts of the forms stated; standard input and output are byte queues that are never short of room; the digits of each number to print are followed value by value"],
)
