"""What every property's check does."""
import json

import vlib
import gen_cursor
import gen_stream
import gen_map
import gen_support
import gen_spec

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


TECHNIQUE = {}


def simulate(ctx, module, cfg, n, depth=60):
    """Behaviours from random walks through a specification."""
    r = ctx.mc(module, cfg, workers=1, timeout=600,
               extra=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(ctx.seed)])
    out = gen_spec.emitted(r.text)
    if len(out) < n // 3:
        raise vlib.ToolError("%s generated too few behaviours: %d of %d" % (module, len(out), n))
    return out


def explored(ctx, module, cfg=None, **kw):
    """Behaviours from all of a model's states."""
    return gen_spec.emitted(ctx.mc(module, cfg or module + ".cfg", **kw).text)


def cursor(ctx):
    if ctx.prop == "C02":
        ctx.mc("MCVbr", "MCVbr.cfg" if ctx.quick else "MCVbrBig.cfg")
    else:
        ctx.mc("MCCursor", "MCCursor.cfg" if ctx.quick else "MCCursorBig.cfg")
    hs = simulate(ctx, "MCHistory", "GenHistory.cfg", 60 if ctx.quick else 2000, 20)
    cases = [gen_spec.history(h) for h in gen_spec.some(ctx.rng("replay"), hs, 250 if ctx.quick else None)]
    ctx.conform("TraceCursor", gen_cursor.GEN[ctx.prop](ctx.rng(), ctx.quick) + cases, gen_cursor.trace,
                size=lambda t: 20 + len(t["ops"]) * (20 + len(t["data"]) // 100))


for p in ("C01", "C02", "C03", "C04", "C05"):
    CHECKS[p] = cursor
    TECHNIQUE[p] = ("cursor", "The design is explored exhaustively in small bounds; the code is judged on operation sequences: random walks of the specification, replayed; exhaustive positions/widths on small buffers; seeded random histories.")


def stream(ctx):
    big = "" if ctx.quick else "Big"
    r = ctx.rng("replay")
    cases = gen_stream.GEN[ctx.prop](ctx.rng(), ctx.quick)
    if ctx.prop == "C06":
        ctx.mc("MCContainer", "MCContainer%s.cfg" % big)
    elif ctx.prop in ("C07", "C08", "C09"):
        ctx.mc("MCRoundTrip", "MCRoundTrip%s.cfg" % big)
        cases += [gen_stream.case(x) for x in simulate(ctx, "MCRoundTrip", "GenRoundTrip.cfg", 250 if ctx.quick else 4000)]
    else:
        ctx.mc("MCParser", "MCParser%s.cfg" % big)
    ctx.conform("TraceStream", cases, gen_stream.trace, size=lambda t: len(t["data"]))


for p in ("C06", "C07", "C08", "C09", "C10", "C11"):
    CHECKS[p] = stream
    TECHNIQUE[p] = ("stream", "The format's design (every encoding of every small history, container, block and abbreviation scoping) is explored exhaustively in small bounds; the code is judged on recorded parses of bit streams: behaviours generated from the specification's writer, and seeded random, mutated and exhaustive small ones.")


def one_byte_text(ctx):
    """Texts of one byte are refused (and nothing else is wrong with them)."""
    what = ctx.finding("one-byte-text")
    return lambda case, obs: (what if what and case.get("probe") and obs.get("out") == "ok" and obs.get("res") == "err" else None)


def shared_types(ctx):
    """Types that share their parts are expanded, using more memory than their size permits."""
    what = ctx.finding("shared-types")
    return lambda case, obs: (what if what and case.get("probe") and (
        obs.get("out") == "abort" or obs.get("out") == "ok" and obs.get("same")) else None)


KNOWN = {"C14": one_byte_text, "C26": shared_types}


def replayed(ctx):
    """Model-check what a mapper property says, and make cases of what the models emit."""
    r, quick, p = ctx.rng("replay"), ctx.quick, ctx.prop
    big = "" if quick else "Big"
    some = lambda xs, n, m=None: gen_spec.some(r, xs, n if quick else m)
    if p == "C12":
        ctx.mc("MCUnroll", "MCUnroll%s.cfg" % big)
        return [gen_spec.entries(e) for e in some(simulate(ctx, "MCUnroll", "GenUnroll.cfg", 150 if quick else 3000), 300)]
    if p == "C13":
        es = explored(ctx, "MCUnroll", "MCGroup.cfg")
        if not quick:
            ctx.mc("MCUnroll", "MCGroupBig.cfg")
        return [gen_spec.entries(e) for e in some(es, 300)]
    if p in ("C14", "C15"):
        ctx.mc("MCText", "MCText%s.cfg" % big)
    if p == "C14":
        if not quick:
            ctx.mc("MCMetadata", "MCMetadataBig.cfg")
        return [gen_spec.module_block(r, x) for x in some(explored(ctx, "MCMetadata"), 500)]
    if p in ("C15", "C19", "C20"):
        xs = explored(ctx, "MCGlobals")
        kinds = {"C15": ["fn", "alias", "comdat"], "C19": ["fn"], "C20": ["alias", "comdat"]}[p]
        out = gen_spec.lookups(r, xs) if p == "C15" else []
        return out + gen_spec.globals_(r, xs, kinds, *((100, 200) if quick else (10000, 4000)))
    if p == "C16":
        if not quick:
            ctx.mc("MCTypeTable", "MCTypeTableBig.cfg")
        return [gen_spec.type_table(r, x) for x in some(explored(ctx, "MCTypeTable"), 500)]
    if p == "C18":
        xs = explored(ctx, "MCAttributes", "MCAttributes%s.cfg" % big)
        r.shuffle(xs)
        return [gen_spec.attribute_groups(r, xs[i:i + 8]) for i in range(0, len(xs), 8)]
    if p == "C27":
        ctx.mc("MCSpelling", "MCSpelling%s.cfg" % big)
        return gen_spec.spellings(simulate(ctx, "MCSpelling", "GenSpelling.cfg", 150 if quick else 3000, 150))
    if p == "C26":
        ctx.mc("MCParser", "MCParser%s.cfg" % big)
        ctx.mc("MCUnroll", "MCUnroll%s.cfg" % big)
    return []


def mapper(ctx):
    if ctx.prop in KNOWN:
        ctx.conform("TraceMapper", gen_map.PROBES[ctx.prop](), gen_map.trace, name="Probe", known=KNOWN[ctx.prop](ctx))
    cases = replayed(ctx) + gen_map.GEN[ctx.prop](ctx.rng(), ctx.quick)
    ctx.conform("TraceMapper", cases, gen_map.trace, size=lambda t: len(t["data"]) + 50)


MAPPER = "The property's design is explored exhaustively in small bounds (%s); the code is judged on recorded mappings: of what the models emit, replayed, and of generated modules, well-formed and defective; the mapping state seen through the hook is compared, too."
for p, what in (("C12", "every short history of entries against the tree it declares"), ("C13", "every short sequence of blocks"),
                ("C14", "every small collection of records and blocks"), ("C15", "every range over a table"),
                ("C16", "every small table, and every order of resolving its references"), ("C18", "every short list of attributes"),
                ("C19", "every pair of changed operands"), ("C20", "every pair of changed operands"), ("C26", "every short input, every short history"),
                ("C27", "every spelling of a small module")):
    CHECKS[p] = mapper
    TECHNIQUE[p] = ("map", MAPPER % what)


def support(ctx):
    r, quick, p = ctx.rng("replay"), ctx.quick, ctx.prop
    big = "" if quick else "Big"
    cases = []
    if p in ("C17", "C25"):
        xs = explored(ctx, "MCTypes", "MCTypes%s.cfg" % big)
        cases = gen_spec.terms(gen_spec.some(r, xs, 400 if quick else 8000), around=p == "C17", ops=p == "C25")
    elif p == "C21":
        cases = gen_spec.layouts(explored(ctx, "MCLayout", "MCLayout%s.cfg" % big))
    elif p == "C22":
        ctx.mc("MCTables", "MCTables%s.cfg" % big)
        hs = explored(ctx, "MCTables", "GenTablesAll.cfg") + simulate(ctx, "MCTables", "GenTables.cfg", 20 if quick else 400)
        cases = [gen_spec.updates(h) for h in gen_spec.some(r, hs, 500 if quick else 20000)]
    elif p == "C23":
        cases = gen_spec.alignments(explored(ctx, "MCAlign"))
    elif p == "C24":
        ctx.mc("MCCodes")
    ctx.conform("TraceSupport", cases + gen_support.GEN[ctx.prop](ctx.rng(), ctx.quick), gen_support.trace,
                size=lambda t: len(t["ev"]) + 1)


SUPPORT = "The property's design is explored exhaustively in small bounds (%s); the code is judged on recorded histories of API calls: what the models emit, replayed; exhaustive over small values, boundaries and kinds of types; seeded random beyond."
for p, what in (("C17", "all types of small depth"), ("C21", "every short string of specifications"), ("C22", "every short history of updates"),
                ("C23", "every power of two and its surroundings"), ("C24", "every table and code"), ("C25", "all types of small depth, every code")):
    CHECKS[p] = support
    TECHNIQUE[p] = ("support", SUPPORT % what)
