"""Which models, behaviours and executions decide each property."""
import random
from common import *

def batches(n, size=4000):
    k = 0
    while n > 0:
        yield k, min(n, size)
        n -= size
        k += 1

def replay_programs(r, progs, tag, harness, spec, finish=None, size=8000, most=None):
    """Execute behaviours of the specification on the real program and validate what it showed
    (with `most`: a random selection of that many)."""
    if most and len(progs) > most:
        r.notes.append("%d of the %d behaviours of %s replayed" % (most, len(progs), tag))
        progs = random.Random(SEED).sample(progs, most)
    scs = []
    for k, p in enumerate(progs):
        ev = p["ev"]
        if finish:
            ev = finish(ev)
        scs.append({"id": "mc-%s-%d" % (tag, k), "ev": ev})
    for i in range(0, len(scs), size):
        f = r.work.path("mc%d.ndjson" % i)
        dump(f, scs[i:i + size])
        r.drive(harness, ["-replay", f], f + ".o")
        r.validate(spec, spec + ".cfg", f + ".o", harness)

def model_check(r, mc, finish, modes, nq, nt, harness="hbook", spec="TraceBook", deep=True):
    """Model-check `mc`, replay its behaviours, then validate random scenarios of `modes`."""
    d = r.tier == "thorough"
    progs = r.model(mc.split(":")[0], mc.replace(":", "_") + ("_deep" if d and deep else "") + ".cfg", want_programs=True, timeout=800)
    replay_programs(r, progs, mc.replace(":", "-"), harness, spec, finish)
    for m in ([modes] if isinstance(modes, str) else modes):
        gen_check(r, harness, m, nt if d else nq, spec)

def with_chk(chk, extra=()):
    def f(ev):
        ev[-1]["chk"] = chk
        return ev + [dict(x) for x in extra]
    return f

def book_check(r, focus, mode, chk, nq, nt, extra=()):
    """Model-check MCBook with `focus`, replay its programs on the program, then
    validate those and random programs against Book.tla."""
    model_check(r, "MCBook:" + focus, with_chk(chk, extra), mode, nq, nt)

def gen_check(r, harness, mode, n, spec, size=4000, limit=None):
    for k, m in batches(n, size):
        f = r.work.path("%s-%d.ndjson" % (mode, k))
        a = ["-mode", mode, "-seed", str(SEED * 1000 + k), "-n", str(m), "-tier", r.tier]
        if limit:
            a += ["-limit", str(limit)]
        r.drive(harness, a, f)
        r.validate(spec, spec + ".cfg", f, harness)
        os.unlink(f)

BOOK = [("TraceBook", "TraceBook.cfg", "hbook")]
CHECKS = {}

def add(pid, run, what, judges, **kw):
    CHECKS[pid] = dict(run=run, what=what, judges=judges, **kw)

add("C02", lambda r: book_check(r, "all", "ops", ["balanced"], 3000, 60000),
    "MCBook (every program of the model's operation alphabet, invariant InvBalanced) and, on the real code, every such program "
    "plus random programs over random ledgers: each listed transaction must sum to exactly zero per currency (TraceBook, ViewBalanced).", BOOK)
add("C03", lambda r: book_check(r, "all", "canon", ["canonical", "balances", "amounts"], 2500, 50000),
    "Listings after every program: strict (date, payee, account, currency) order, one non-zero posting per place, exact merged sums, "
    "exact running balances (ViewCanonical, ViewBalances, ViewAmounts).", BOOK)
for pid, f, w in (("C04", "map", "map"), ("C05", "move", "move"), ("C06", "depreciate", "depreciate"), ("C08", "combine", "combine")):
    add(pid, lambda r, f=f: book_check(r, f, f, ["amounts", "notes"], 1200 if f == "depreciate" else 2500, 50000),
        "MCBook focused on %s (its law checked in every state); the real book after every such program and after random programs "
        "must equal the specification's book place by place, exactly." % w, BOOK)
add("C07", lambda r: book_check(r, "window", "window", ["amounts", "notes", "balances"], 2500, 50000),
    "MCBook focused on since/asof (idempotence, complement, unchanged postings); the real book after every program must equal the "
    "specification's, with running balances recomputed; dates in every notation.", BOOK)
add("C10", lambda r: model_check(r, "MCPrice", None, "price", 3000, 60000),
    "MCPrice (every recording order of a few prices over two pairs: interpolation, nearest, reciprocal, independence of order) "
    "replayed on the real price book, and random price tables: each look-up, iterator and price list must show what Book.tla's Quote gives.", BOOK)
add("C11", lambda r: book_check(r, "convert", "convert", ["amounts", "notes"], 2500, 50000),
    "MCBook focused on conversion (its law checked in every state) and random programs with prices: after every conversion the real book must equal the "
    "specification's, amount times Quote at the transaction's date.", BOOK)
add("C12", lambda r: book_check(r, "mapccy", "mapccy", ["amounts", "notes"], 2500, 50000, [{"op": "prices"}, {"op": "dec"}]),
    "MCBook focused on mapccy; after every such program the real book's postings, every price list and the decimals of every currency "
    "must equal the specification's book.", BOOK)
for pid, m, c, w in (("C13", "summary", "values", "amounts of every row"), ("C14", "tree", "tree", "rows, their order, indentation and labels")):
    add(pid, lambda r, m=m, c=c: model_check(r, "MCSummary", with_chk([c]), m, 3000, 60000),
        "MCSummary (every set of accounts of a tree with gaps and look-alike names, two periods, foreign currency anywhere) with the laws "
        "of subtotals and of the tree; replayed on the real program, and random books: the %s must be those of Summary.tla." % w, BOOK)
for pid, m, c, w in (("C15", "register", "entries", "entries, counter-accounts, amounts and running balances"), ("C16", "regbase", "base", "base-currency amounts, sources and balances")):
    add(pid, lambda r, m=m, c=c: model_check(r, "MCRegister", with_chk([c]), m, 3000, 60000),
        "MCRegister (every small book, selection, joined or split, base currency) with the laws of the register; replayed on the real "
        "program, and random books with trades: the %s must be those of Register.tla." % w, BOOK)
add("C18", lambda r: book_check(r, "all", "accts", ["none"], 3000, 60000, [{"op": "accts", "re": "", "all": False}, {"op": "accts", "re": "^A", "all": True},
                                {"op": "accts", "re": "^[BC]", "all": False}]),
    "After every program of MCBook and random programs, the listed accounts must be exactly those of the specification's book whose final "
    "balance is non-zero (or all), sorted.", BOOK)
def import_check(r, m, nq, nt):
    d = r.tier == "thorough"
    progs = r.model("MCImport", "MCImport_" + m + ("_deep" if d else "") + ".cfg", want_programs=True, timeout=800)
    replay_programs(r, progs, "import-" + m, "hbook", "TraceBook", most=(60000 if m == "dedup" else 15000) if d else 3000)
    gen_check(r, "hbook", m, nt if d else nq, "TraceBook")
SCRIPT = [("TraceScript", "TraceScript.cfg", "hscript")]
def script_check(r, models, modes):
    d = r.tier == "thorough"
    all = []
    for mc, nq, nt in models:
        progs = r.model(mc.split(":")[0], mc.replace(":", "_") + ("_deep" if d else "") + ".cfg", want_programs=True, timeout=850)
        most = nt if d else nq
        if len(progs) > most:
            r.notes.append("%d of the %d behaviours of %s replayed" % (most, len(progs), mc))
            progs = random.Random(SEED).sample(progs, most)
        all += progs
    replay_programs(r, all, "script", "hscript", "TraceScript")
    for m, nq, nt in modes:
        gen_check(r, "hscript", m, nt if d else nq, "TraceScript")
add("C19", lambda r: (import_check(r, "dedup", 3000, 50000), script_check(r, [("MCScript:files", 600, 20000)], [("dedup", 700, 20000)])),
    "MCImport (every pair of small books; partition laws of deduplication) replayed on the real code, and random pairs of books: what remains must be "
    "exactly the transactions whose date and payee the reference does not have, complete, and the reference must show what it showed before; and the built program: MCScript:files (every "
    "list of small files next to every small ledger; nothing twice, nothing lost) and random ledgers and files with much in common, imported with and without deduplication.", BOOK + SCRIPT, program=True)
add("C20", lambda r: (import_check(r, "reclass", 1200, 12000), script_check(r, [], [("reclass", 700, 20000)])),
    "MCImport (every pair of small books, similarities with ties; laws of reclassification) replayed on the real code, and random pairs with random similarities: "
    "each two-posting transaction on the account must get one of the admissible accounts of Import.tla, nothing else may change, and repetitions must agree; and the built program's import over random ledgers and payees alike "
    "to various degrees, with Script.tla's Jaro-Winkler similarity.", BOOK + SCRIPT, program=True)
add("C21", lambda r: script_check(r, [("MCScript:csv", 1500, 40000), ("MCScript:json", 1500, 40000), ("MCScript:add", 1500, 40000), ("MCScript:files", 400, 10000)],
                                 [("import", 900, 30000), ("formats", 900, 30000), ("generate", 800, 20000)]),
    "MCScript (every short CSV text with every way to read it, every short sequence of JSON tokens, every combination of arguments of add(), every list of small files; laws of reading back, "
    "of balance, of refusal) put through the built program, and random files in both formats, scripts, defaults and configured imports and generators: the values a script sees, the comments "
    "and the ledger text that comes out must be those of Script.tla, and what it refuses must be refused with the script's message.", SCRIPT, program=True)
add("C27", lambda r: [model_check(r, "MCHist", None, "hist", 900, 15000), gen_check(r, "hbook", "merge", 15000 if r.tier == "thorough" else 900, "TraceBook")],
    "MCHist (every history of one operation of each kind on a book or its duplicate, both read in full after each step) and random histories of reads (listings, prices, decimals, accounts, registers, summaries) and operations over a book and its duplicates, "
    "also with amounts that cancel when currencies, accounts or dates become the same: each side must follow its own specification book, and a read repeated without an operation on its own side must show the same, and so must the whole history without its reads, to the notes.", BOOK)

def c31(r):
    d = r.tier == "thorough"
    progs = r.model("MCOps", "MCOps_deep.cfg" if d else "MCOps.cfg", want_programs=True, timeout=800)
    replay_programs(r, progs, "ops", "hbook", "TraceBook", lambda ev: ev + [{"op": "view", "chk": ["amounts"]}], most=60000 if d else 4000)
    gen_check(r, "hbook", "opstr", 60000 if d else 3000, "TraceBook")
add("C31", c31, "MCOps (every short list of texts over every small macro table: inlining, composition, self-reference) replayed on the real code, and random lists "
    "of well-formed, damaged and odd texts with nested macros: the program must refuse exactly what spells nothing in Ops.tla and otherwise make the book that the sequence makes.", BOOK)

CAL = [("TraceCal", "TraceCal.cfg", "hcal")]
def c09(r):
    d = r.tier == "thorough"
    progs = r.model("MCCal", "MCCal_deep.cfg" if d else "MCCal.cfg", want_programs=True, timeout=850)
    # the texts of many days in one scenario
    byop = [progs[i:i + 40] for i in range(0, len(progs), 40)]
    replay_programs(r, [{"ev": [x["ev"][0] for x in b]} for b in byop], "MCCal", "hcal", "TraceCal")
    if d:
        for k in range(1, 21):
            f = r.work.path("years-%d.ndjson" % k)
            r.drive("hcal", ["-mode", "years", "-seed", str(SEED), "-n", str(-k), "-tier", r.tier], f)
            r.validate("TraceCal", "TraceCal.cfg", f, "hcal")
            os.unlink(f)
    else:
        gen_check(r, "hcal", "years", 400, "TraceCal")
    gen_check(r, "hcal", "texts", 30000 if d else 2500, "TraceCal")
add("C09", c09, "MCCal (day-by-day walk over every kind of leap and century boundary; ordinals, floors, shifts and date texts with their laws); the program's "
    "day numbers, inverse, differences, additions, floors, labels and validity of all days of 400 years (thorough: all of years 1 to 9999), and the date of "
    "every text of the walk plus random well-formed and damaged texts, must be those of Calendar.tla.", CAL)

LOAD = [("TraceLoad", "TraceLoad.cfg", "hload")]
def loads(chk, view):
    return lambda ev: [dict(ev[0], chk=[chk])] + [{"op": "view", "chk": view}, {"op": "prices"}, {"op": "dec"}]
def load_check(r, focus, chk, view, modes):
    d = r.tier == "thorough"
    cfg = "MCLoader_" + focus + ("_deep" if d else "") + ".cfg"
    progs = r.model("MCLoader", cfg, want_programs=True, timeout=800)
    replay_programs(r, progs, focus, "hload", "TraceLoad", loads(chk, view))
    for m, nq, nt in modes:
        gen_check(r, "hload", m, nt if d else nq, "TraceLoad")
add("C01", lambda r: load_check(r, "amounts", "reject", ["balanced"], [("damaged", 6000, 120000), ("bytes", 800, 15000)]),
    "MCLoader (every short ledger written line by line while it is read; balance law) replayed, damaged ledgers judged line by line by Notation.tla, and "
    "arbitrary bytes: a ledger that is malformed or does not balance must be refused, and one that loads must show the transactions it spells; no crash, no hang.", LOAD)
def names_check(r):
    progs = r.model("MCNames", "MCNames%s.cfg" % ("_deep" if r.tier == "thorough" else ""), want_programs=True, timeout=800)
    replay_programs(r, progs, "names", "hbook", "TraceBook", with_chk(["amounts", "notes", "canonical"]))
    load_check(r, "amounts", "accept", ["amounts", "notes"], [("good", 4000, 100000)])
add("C22", names_check,
    "MCNames (every sequence of transactions of one date whose payees are, or read like, numbered ones: each keeps its own postings under the first free number) replayed on the "
    "book builder, MCLoader replayed, and random well-formed ledgers in every permitted notation (their lines are checked against Notation.tla): the program must load exactly "
    "the postings, notes, prices and decimals that Loader.tla gives.", LOAD + BOOK)
add("C23", lambda r: load_check(r, "scope", "accept", ["amounts"], [("scope", 3000, 60000)]),
    "MCLoader with includes and aliases (every interleaving of alias, include, return and postings over up to three files; laws of scope and of inlining) replayed, "
    "and random trees of up to six files in nested directories: the postings must be on the accounts Loader.tla's lexical scopes give.", LOAD)

# ---- the built program
CLI = [("TraceCli", "TraceCli.cfg", "hcli")]
def for_runs(chk, keep=lambda e: True, most=None):
    """The behaviour with only the runs that matter here, judged by `chk`; of a long list of runs only some."""
    def f(ev):
        out = []
        for e in ev:      # (TLC writes an empty function as an empty list)
            e = dict(e, **{k: {} for k in ("cli", "set", "macros") if e.get(k) == []})
            if e["op"] != "run":
                out.append(e)
            elif keep(e):
                out.append(dict(e, chk=chk) if chk else e)
        return out
    return f
def form(e):
    return e["cli"].get(e["cmd"] + ".type", "").lower()
def cli_check(r, models, chk, modes, keep=lambda e: True, twice=False):
    d = r.tier == "thorough"
    for mc, nq, nt in models:
        progs = r.model(mc.split(":")[0], mc.replace(":", "_") + ("_deep" if d else "") + ".cfg", want_programs=True, timeout=850)
        one = for_runs(chk, keep)
        def again(ev):
            q = []
            for e in one(ev):
                q += [e] * (3 if e["op"] == "run" else 1)
            return q
        replay_programs(r, progs, mc.replace(":", "-"), "hcli", "TraceCli", again if twice else one, size=2000, most=nt if d else nq)
    for m, nq, nt in modes:
        gen_check(r, "hcli", m, nt if d else nq, "TraceCli", size=2000)
def add_cli(pid, models, chk, modes, what, **kw):
    run = {k: kw.pop(k) for k in ("keep", "twice") if k in kw}
    add(pid, lambda r: cli_check(r, models, chk, modes, **run), what, CLI, program=True, **kw)
add_cli("C17", [("MCShow:register", 1200, 40000)], ["entries", "refuse"], [("register", 1500, 40000)],
    "MCShow (every combination of window, limit, order, joined, split and selection over small ledgers; laws of selection, limit, order, windows and sections) replayed "
    "on the built program, and random ledgers, settings and operations: the entries shown (text words, JSON, CSV) must be those of Cli.tla; dates that are none must be refused.")
add_cli("C24", [("MCText:names", 500, 20000), ("MCText:amounts", 200, 20000)], ["ledger"], [("ledger", 1200, 30000)],
    "MCText (every small ledger with awkward names, notes and amounts; a book written in ledger form reads back as itself, and a text that lost a line does not) put through "
    "the built program, and random ledgers and operations: the ledger text written must read back (Notation.tla, Loader.tla) as the book of Cli.tla.",
    keep=lambda e: form(e) == "ledger")
add_cli("C25", [("MCText:names", 500, 20000), ("MCText:amounts", 200, 20000)], ["records"], [("records", 1500, 40000)],
    "MCText (the records of every small book determine it) put through the built program, and random ledgers, settings and operations: the decoded JSON and CSV records must be "
    "those of Cli.tla, in order, with every text and with amounts to the nearest double.", keep=lambda e: form(e) in ("json", "csv"))
add_cli("C26", [("MCText:closing", 400, 20000), ("MCText:names", 300, 20000)], ["bean"], [("bean", 1500, 40000)],
    "MCText (the Beancount directives of every small book are consistent, and no longer so when one is left out, doubled or moved) put through the built program, and random "
    "ledgers and operations: the decoded directives must be consistent with and complete for the book of Cli.tla.", keep=lambda e: form(e) == "beancount")
add_cli("C30", [("MCText:closing", 60, 4000), ("MCText:names", 60, 4000), ("MCText:amounts", 60, 4000)], ["same"], [("same", 900, 20000)],
    "The behaviours of MCText, each command three times, and random ledgers with many currencies, prices, macros and every command (reports, exports, registers, accounts, "
    "currencies, help, completion) five times: in TraceCli a repeated command in the same state must show the same, to the byte.", twice=True)
add_cli("C32", [("MCShow:screen", 800, 20000)], ["screen"], [("screen", 1500, 40000)],
    "MCShow (numbers, languages, colours and long or non-ASCII names in every combination; laws of width, colour, completeness and rounding) replayed on the built program, "
    "and random ledgers and settings: the text on the screen must be that of Screen.tla, to the byte.")
add_cli("C33", [("MCConfig:places", 300, 20000), ("MCConfig:values", 500, 20000)], ["screen", "entries", "records", "ledger", "bean", "refuse", "same", "first"], [("config", 500, 12000)],
    "MCConfig (every environment, files in up to 2 (4) of the 11 places, first and later runs; every setting with good and bad values in the file and on the command line; laws of "
    "precedence, search order, refusal and first runs) replayed on the built program, and random files and command lines: what each run shows must be what the settings of Config.tla give.")
add_cli("C34", [("MCShow:term", 900, 20000)], ["term"], [("term", 1200, 30000)],
    "MCShow (terminals of every size around that of the tables, with and without a pager; laws: names give way in proportion and nothing else, lines fit when they can, the pager loses "
    "nothing) replayed on the built program with a pseudo-terminal as its output and a stand-in pager, and random ledgers, settings and sizes: what reaches the terminal directly and through the "
    "pager must be what Screen.tla gives, to the byte.")
add_cli("C35", [("MCHtml", 1200, 20000)], ["html", "refuse"], [("html", 1200, 30000)],
    "MCHtml (every small report over a tree of accounts with gaps and texts that look like markup, plain, summarised and with hidden rows; laws of nesting and of reading back) replayed on the "
    "built program, and random ledgers, settings and styles: the decoded boxes and texts of the page must be those of Html.tla, and its style the one asked for.")

# ---- what is said of books, seen through the commands of the built program as well
def through(pid, mode, nq=500, nt=15000):
    c = CHECKS[pid]
    run = c["run"]
    def both(r):
        run(r)
        gen_check(r, "hcli", mode, nt if r.tier == "thorough" else nq, "TraceCli", size=2000)
    c.update(run=both, program=True, judges=c["judges"] + [x for x in CLI if x not in c["judges"]],
             what=c["what"] + " Then the same through the built program's commands (operations, settings and output formats at random), judged by Cli.tla.")
for pid, m in (("C02", "ops"), ("C03", "ops"), ("C04", "map"), ("C05", "move"), ("C06", "depreciate"), ("C07", "window"), ("C08", "combine"), ("C10", "regbase"), ("C11", "convert"),
               ("C12", "mapccy"), ("C13", "sum"), ("C14", "tree"), ("C15", "entries"), ("C16", "regbase"), ("C18", "accts"), ("C31", "opstr")):
    through(pid, m)

# ---- download: the built program against a bank of the harness
DL = [("TraceSync", "TraceSync.cfg", "hdl")]
def dl_check(r, models, modes):
    d = r.tier == "thorough"
    all = []
    for mc, nq, nt in models:
        progs = r.model(mc.split(":")[0], mc.replace(":", "_") + ("_deep" if d else "") + ".cfg", want_programs=nq is not None, timeout=850)
        most = nt if d else nq
        if most is not None and len(progs) > most:
            r.notes.append("%d of the %d behaviours of %s replayed" % (most, len(progs), mc))
            progs = random.Random(SEED).sample(progs, most)
        all += progs if nq is not None else []
    replay_programs(r, all, "bank", "hdl", "TraceSync", for_runs(None), size=2000)
    for m, nq, nt in modes:
        gen_check(r, "hdl", m, nt if d else nq, "TraceSync", size=2000)
add("C28", lambda r: dl_check(r, [("MCStore:had", 150, 1000), ("MCStore:new", None, None)], [("save", 250, 8000)]),
    "MCStore (a disk whose cached blocks and directory changes may or may not have survived, every operation and crash point of a save: what can be left is what Store.tla says; which ways to "
    "save are safe) and, on the built program under a tracer of its file calls, saves of every kind of state in which the n-th such call fails, writes only part, or ends the process: "
    "at no point may a crash leave anything but the complete old or the complete new state, what is there must be one of the two, failures must be reported, and what was saved must read back.",
    DL, program=True, tracer=True)
add("C29", lambda r: dl_check(r, [("MCPage", 60, 2000), ("MCPage:arrive", None, None), ("MCSync:monzo", 70, 4000), ("MCSync:starling", 60, 4000), ("MCSync:nordigen", 60, 4000)],
                              [("mix", 400, 16000)]),
    "MCPage (paging over every arrangement of transactions over few moments, also while more arrive: complete, never stuck, ends), MCSync (every short history of bank states and failing "
    "requests for each kind of bank: complete, kept, repeatable) replayed on the built program against a bank of the harness, and random histories of banks, options, failing requests and damaged "
    "state files: after each run the state file must hold what Sync.tla says, and a run that fails must say so and leave transactions and accounts as they were.",
    DL, program=True)
IO = [("TraceDeliver", "TraceDeliver.cfg", "hio")]
def io_check(r):
    d = r.tier == "thorough"
    progs = r.model("MCDeliver", "MCDeliver_deep.cfg" if d else "MCDeliver.cfg", want_programs=True, timeout=850)
    most = 12000 if d else 700
    if len(progs) > most:
        r.notes.append("%d of the %d behaviours of MCDeliver replayed" % (most, len(progs)))
        progs = random.Random(SEED).sample(progs, most)
    replay_programs(r, progs, "faults", "hio", "TraceDeliver", lambda ev: ev, size=2000)
    gen_check(r, "hio", "plans", 1200 if d else 96, "TraceDeliver", size=2000)
    gen_check(r, "hio", "faults", 12000 if d else 480, "TraceDeliver", size=2000)
add("C36", io_check,
    "MCDeliver (commands in a row over a world in which any call on a file may fail, be cut short or be the last: the careful design is never judged at fault and leaves no part of a configuration; "
    "a careless one - going on after a failed write, taking a failed read for the end, ending without a word, making the configuration in its place - is judged at fault exactly when it shows), its "
    "fault plans for each of 26 commands replayed on the built program under a tracer of its calls, every reading and making call of random commands failing in turn, and random faults in a row, "
    "also a full device and a closed pipe: what was shown must be the beginning of the answer, success means all of it, failure has a word and a cause, and later runs show what they should.",
    IO, program=True, tracer=True)

def alone_check(r):
    d = r.tier == "thorough"
    progs = r.model("MCAlone", "MCAlone_deep.cfg" if d else "MCAlone.cfg", want_programs=True, timeout=850)
    replay_programs(r, progs, "alone", "hio", "TraceDeliver", lambda ev: ev, size=2000)
    gen_check(r, "hio", "alone", 12000 if d else 480, "TraceDeliver", size=2000)
add("C37", alone_check,
    "MCAlone (any calls on what a user has: judged at fault exactly if something the command has no business with was, for a moment even, not what it was), its runs - each command, with and without a "
    "configuration, each of its files missing or failing in turn - replayed on the built program under a tracer of its calls, with random commands and faults in a row: content, mode, time and identity of "
    "every file before and after, and every call that changes one, against the specification's MayChange.",
    IO, program=True, tracer=True)

def meanwhile_check(r):
    d = r.tier == "thorough"
    x = "_deep" if d else ""
    progs = r.model("MCMeanwhile", "MCMeanwhile%s.cfg" % x, want_programs=True, timeout=850)
    for way in ["common", "place"]:
        r.model("MCMeanwhile", "MCMeanwhile_%s%s.cfg" % (way, x), timeout=850)
    replay_programs(r, progs, "meanwhile", "hio", "TraceDeliver", lambda ev: ev, size=2000)
    gen_check(r, "hio", "meanwhile", 12000 if d else 480, "TraceDeliver", size=2000)
add("C38", meanwhile_check,
    "MCMeanwhile (two commands at the same time in every order of their calls, with and without a configuration: if each makes it under its own name and then names it, both always show what they would alone "
    "and leave a whole configuration; a common name, or making it in its place, is judged at fault exactly when it shows), its nested orders replayed on the built program: a run is held before each kind of "
    "its calls while another runs from beginning to end, and random commands held before random calls.",
    IO, program=True, tracer=True)
