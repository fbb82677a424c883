#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Only balanced, well-formed ledgers load",
  "A ledger loads only if, once amount-less postings are filled in, the postings of every transaction sum to exactly zero in every currency and every line is well formed. A ledger that does not is rejected with an error; it never crashes or hangs the program and is never silently loaded as something else (truncated, an amount without its currency dropped, an impossible date or an overflowing number accepted).",
  ["inputs"], "for every ledger text (any transactions, postings, magnitudes, currencies, malformed lines)",
  "No test loads a ledger file at all; the universal claim is over all texts, including ill-formed ones.",
  ["loader/parser.go", "loader/lexer.go", "book/builder.go", "cmd/app/app.go"],
  [("balance check when a transaction is closed", "book/builder.go checkAndClearTransaction"), ("panic-to-error recovery in the parser", "loader/parser.go parseFileLocal"), ("load entry point", "cmd/app/app.go LoadBook")],
  ["App.LoadBook result (book or error)", "exit status of the command line"])

p("C02", "Every transformation keeps every transaction balanced",
  "Starting from a loaded ledger, after any sequence of book operations (rename, move a share, depreciate, date windows, combine by period, currency rename, conversion to a base currency), the postings of every transaction still sum to exactly zero in every currency.",
  ["programs", "inputs"], "for every ledger and every finite sequence of operations, at every point of the sequence",
  "No test applies an operation to a book; the invariant is over all operation sequences.",
  ["book/book.go", "book/book_utils.go", "book/book_compact.go", "cmd/app/book_op.go"],
  [("move/depreciate emit paired postings with opposite signs", "book/book.go AdjustPost, Depreciate"), ("exact rational arithmetic", "book/posting.go")],
  ["transactions of the book after each operation"])

p("C03", "A book always shows its one canonical form",
  "At every point the book lists its transactions in strictly increasing (date, payee) order, one per date and payee, and inside each one posting per account and currency, ordered by account then currency, with a non-zero amount that is the exact sum of everything posted there. The running balance of each posting is the exact sum of all amounts of that account and currency up to and including it.",
  ["programs", "inputs"], "for every ledger, insertion order and sequence of operations",
  "Tests look at a few accumulated samples; ordering, merging, zero removal and running balances are universal over books and histories.",
  ["book/book_compact.go", "book/book.go", "book/posting.go"],
  [("sort, merge, drop zeros, re-index, balances", "book/book_compact.go compact"), ("order relation", "book/posting.go isLess")],
  ["Book.Transactions()"])

p("C04", "Mapping accounts only renames accounts",
  "After a map operation every posting has kept its date, payee, currency and exact amount, and its account is what the regular-expression replacement says (the alternate account when one is given and the expression does not match, otherwise unchanged); postings that end up on the same account are added up. Nothing is lost, duplicated, or moved to another transaction.",
  ["programs", "inputs"], "for every ledger, search expression, replacement and alternate, at any point of an operation sequence",
  "No test maps accounts; the claim is over all expressions and merges.",
  ["book/book.go", "book/book_utils.go", "cmd/app/book_op.go"],
  [("rename and re-compact", "book/book.go MapAccount"), ("regex/alt choice", "book/book_utils.go RegexAccounts")],
  ["transactions before/after map="])

p("C05", "Move transfers exactly the requested share",
  "A move operation with factor f leaves every account that does not match unchanged except for what it receives, reduces each matching posting to (1-f) of its amount and adds exactly f of it, in the same transaction and currency, to the account given by the replacement. The factor is the decimal number as written, with no rounding.",
  ["programs", "inputs"], "for every ledger, expression, replacement and decimal factor",
  "No test moves amounts; exactness over all factors and account overlaps is universal.",
  ["book/book.go", "book/posting.go", "cmd/app/book_op.go"],
  [("paired adjustment postings", "book/book.go AdjustPost"), ("factor parsing", "cmd/app/book_op.go")],
  ["transactions before/after move="])

p("C06", "Depreciation is straight-line, complete and starts on the posting date",
  "Depreciating over n months replaces each matching posting of amount a by n transfers of exactly a/n from the asset account: the first on the posting's own date, each following one on the first day of the next following month. The expense account's total is unchanged, the asset account ends at zero for that posting, and after k instalments the asset still holds exactly a*(n-k)/n.",
  ["programs", "inputs"], "for every ledger, expression, replacement, number of months and posting date",
  "No test depreciates; exact thirds, month ends, year ends and repeated matches are all in the quantifier.",
  ["book/book.go", "book/date.go"],
  [("schedule generation", "book/book.go Depreciate"), ("next month", "book/date.go FloorDiff")],
  ["transactions before/after depreciate="])

p("C07", "Date windows keep exactly the transactions inside them",
  "since=D keeps exactly the transactions dated on or after D and asof=D exactly those dated before D, each complete and unchanged; running balances afterwards count only what was kept. Applying a window twice changes nothing and the two windows commute.",
  ["programs", "inputs"], "for every ledger, every date or date phrase, at any point of an operation sequence",
  "No test filters by date; boundaries and interaction with earlier operations are universal.",
  ["book/book_utils.go", "book/book.go", "book/date.go"],
  [("filter", "book/book.go FilterTransaction"), ("bounds", "book/book_utils.go FilterByDateSince/Asof")],
  ["transactions before/after since=/asof="])

p("C08", "Combining periods neither loses nor shifts money",
  "combine=monthly, quarterly or yearly (and the report's split option) puts every posting on the first day of its own month, quarter or year, one transaction per period, each amount being the exact sum of that account and currency in that period; combine=today puts everything on today's date and combine=none keeps each date, again one transaction per date. No amount is lost or moved to a neighbouring period.",
  ["programs", "inputs"], "for every ledger, every period kind, at any point of an operation sequence",
  "Tests floor three sample dates; sums across periods and date boundaries are universal.",
  ["book/book.go", "book/date.go", "cmd/app/book_op.go"],
  [("floor and merge", "book/book.go SplitBy"), ("floors", "book/date.go FloorMonth/Quarter/Year")],
  ["transactions before/after combine="])

p("C09", "Dates follow the proleptic Gregorian calendar",
  "Converting any calendar date to a day number and back gives the same date, consecutive dates differ by one day, adding days and differences of days agree with the Gregorian calendar including leap years and centuries, and month/quarter/year floors and shifts land on the first day of the right period for any shift, negative or beyond a year. A date text denotes its own calendar date in every supported notation, and a text that is not a real date is rejected.",
  ["inputs"], "for every date of years 1..9999, every shift, every supported notation",
  "Unit tests sample a handful of dates; the statement is about all of them.",
  ["book/date.go"],
  [("day numbers", "book/date.go AsDays, GetDateFromDays"), ("floors", "book/date.go Floor*"), ("notations", "book/date.go DateFromString")],
  ["Date methods", "DateFromString result"])

p("C10", "Price look-up is exact, interpolated or nearest, never made up",
  "The price of a unit at a date is the recorded one on a recorded date, the exact linear interpolation by days between the two neighbouring recorded dates, and the first or last recorded price outside the recorded range; only the reverse pair being known gives the reciprocal, no pair gives 1, and the same currency gives 1. The reported kind of price (exact, inferred, out of range, none) says which case applied, independently of the order prices were recorded in and of earlier look-ups.",
  ["inputs", "histories"], "for every set of recorded prices and every queried pair and date",
  "One test samples a few dates in one list; binary search boundaries, ties and inversions are universal.",
  ["book/price.go"],
  [("binary search and interpolation", "book/price.go PriceList.GetPrice"), ("direct, inverse, none", "book/price.go getPrice")],
  ["Book.GetPrice", "Book.GetPriceList"])

p("C11", "Conversion to the base currency uses the price at the transaction's date",
  "With conversion on, every amount a in currency c dated d becomes exactly a times the price of c in the base currency at d, in the base currency, and amounts meeting on one account are added; conversion happens before (register) or after (report) the operations and period combining as documented by the command, and reports show the result rounded only in presentation. Amounts already in the base currency are unchanged.",
  ["inputs", "programs"], "for every ledger with prices, operations, period and base currency",
  "No test converts a book; exactness over all prices, dates and merges is universal.",
  ["book/book.go", "cmd/reports/report.go", "cmd/register/register.go"],
  [("amount mapping", "book/book.go MapAmount"), ("convert step", "cmd/reports/report.go run; cmd/register/register.go run")],
  ["report/register --convert output", "transactions after the mapping"])

p("C12", "Renaming currencies is consistent across postings, prices and decimals",
  "After mapccy every posting and every recorded price whose currency matches carries the renamed currency, everything else is unchanged, and amounts of currencies that became the same are added. Every price recorded before is still found under the renamed pair, and the renamed currency keeps the display precision needed to show its amounts.",
  ["programs", "inputs"], "for every ledger with prices, every expression and replacement, including renames that collide",
  "No test renames currencies; collisions and iteration order are universal.",
  ["book/book_utils.go", "book/book.go", "book/price.go"],
  [("rename postings and price pairs", "book/book_utils.go RegexCCY")],
  ["transactions, price pairs, price lists and decimals after mapccy="])

p("C13", "Summary subtotals equal the sum of what is under them",
  "In a summarised report, each subtotal line of an account prefix shows, in the base currency, exactly the sum of the amounts posted in that period to that account and all accounts below it, each converted at the period's date; each account's own lines show exactly its own amounts in their own currencies. Lines of credit accounts are shown negated, the hidden account is left out, and nothing else is dropped or counted twice.",
  ["inputs"], "for every book, divider, base currency, credit expression and hidden account",
  "Tests accumulate a few small books; account-name shapes, multi-currency and multi-period books are universal.",
  ["book/book_accum.go"],
  [("accumulation", "book/book_accum.go Accumulate")],
  ["Book.Accumulate result", "report --sum output"])

p("C14", "Summary rows form the account tree, the same rows in every period",
  "A summarised report has the same rows in every period: every account and currency that occurs anywhere (zero where absent) plus one subtotal row for every common ancestor of two or more accounts. Each row is indented by its number of subtotalled ancestors and labelled with the rest of its name, each subtotal's rows directly follow it without any unrelated row between, and among siblings larger totals come first.",
  ["inputs"], "for every book, including names that are prefixes of each other, equal totals and very large amounts",
  "Tests accumulate a few small books; ordering ties, magnitudes and name shapes are universal.",
  ["book/book_accum.go", "cmd/reports/text.go"],
  [("levels and terms", "book/book_accum.go splitByStrings"), ("sort key", "book/book_accum.go getSortOrderString"), ("row completion", "book/book_accum.go addEmptyAccounts")],
  ["Book.Accumulate result", "text report rows and columns"])

p("C15", "The register shows every movement once, with a correct running balance",
  "For each matching posting the register shows its amount against the counter-accounts of that transaction that have the opposite sign and the same currency: once with all of them joined, or, when split, once per counter-account in exact proportion to their amounts, so the shown amounts add up to the posting. The balance beside each entry is the exact running sum of the shown amounts in that currency.",
  ["inputs"], "for every book, account expression and split setting",
  "No test extracts a register; multi-leg and multi-currency transactions are universal.",
  ["book/registry.go"],
  [("entry extraction", "book/registry.go ExtractRegister")],
  ["Book.ExtractRegister result", "register output"])

p("C16", "The register's base-currency columns use the trade price, then the market price",
  "Each register entry's base amount is its amount itself in the base currency; otherwise the amount times the rate implied by the transaction when it exchanges that currency against the base on one account, otherwise times the price of the entry's currency in the base currency on that date, with the source reported accordingly. The base balance is the exact running sum of the base amounts.",
  ["inputs"], "for every book with prices and every base currency",
  "No test covers the base columns.",
  ["book/registry.go", "book/transaction.go"],
  [("trade-implied rate", "book/transaction.go InferRate"), ("base columns", "book/registry.go ExtractRegister")],
  ["register --type=json output"])

p("C17", "Register selection, limit and order never change or lose an entry",
  "The begin/as-of dates keep exactly the entries dated in [begin, as-of) with their balances unchanged; a positive count keeps the first n and a negative count the last n of those; descending order is the exact reverse. Without combining there is one section per matching account with exactly the entries of that account alone; every output type shows the same entries, and an empty selection is not an error.",
  ["inputs", "configurations"], "for every book and combination of the register's options",
  "No test runs the register command.",
  ["cmd/register/register.go", "cmd/register/show_register.go", "book/registry.go"],
  [("date selection", "book/registry.go FilterByDate"), ("count and order", "cmd/register/show_register.go ShowReport"), ("per-account sections", "cmd/register/register.go run")],
  ["register output"])

p("C18", "Account listing is exactly the matching accounts with a balance",
  "Listing accounts shows, sorted and once each, exactly the accounts that match the expression and whose final balance is non-zero in at least one currency, or all matching accounts when asked for all.",
  ["inputs", "programs"], "for every ledger, expression and setting, also after operations",
  "No test lists accounts.",
  ["book/book.go", "cmd/accounts/accounts.go"],
  [("listing", "book/book.go Accounts")],
  ["accts output", "Book.Accounts"])

p("C19", "Deduplication removes exactly what the main ledger already has",
  "Removing duplicates from an imported or generated book removes exactly the transactions whose date and payee both occur in the reference book and keeps every other transaction unchanged and complete, wherever dates and payees fall in either book. The reference book is not changed, and later import files are also deduplicated against earlier ones.",
  ["inputs"], "for every pair of books (any order, gaps, ties, empty)",
  "No test covers deduplication.",
  ["book/book_dedup.go", "cmd/importer/import.go", "cmd/generate/generate.go"],
  [("merge scan", "book/book_dedup.go RemoveDuplicatesOf")],
  ["import/generate output", "Book.RemoveDuplicatesOf"])

p("C20", "Reclassification picks the best-known counter-account and nothing else",
  "Reclassifying changes only the counter-account of two-posting transactions on the reference account whose payee is similar to a payee of the reference book; the new account is the one most often used for the most similar payee, and with no similar payee nothing changes. Dates, payees, amounts and all other transactions stay the same, and the same input always gives the same choice.",
  ["inputs"], "for every pair of books and similarity",
  "No test covers reclassification.",
  ["book/book_reclassify.go", "cmd/importer/import.go"],
  [("payee statistics and choice", "book/book_reclassify.go ReclassifyByAccount")],
  ["import output", "Book.ReclassifyByAccount"])

p("C21", "Imports and generators create exactly the transactions the script asks for",
  "Each add() call of an import or generator script creates one balanced transaction with the given date, description and notes, posting amount/denominator to the account and its negative to the counter-account (and likewise for the second amount), with defaults only where an argument is left out. CSV and JSON input reach the script as it was written (blanks before an unquoted CSV field aside), also when fields are empty; an invalid date, amount, denominator or argument combination is an error, never a crash or a silently different transaction.",
  ["inputs", "programs"], "for every input file and every sequence of add() calls",
  "No test runs a script.",
  ["script/starlark.go", "script/convert.go", "cmd/importer/starlark.go", "cmd/generate/starlark.go"],
  [("add()", "script/starlark.go GetBuilderFunction"), ("amount conversion", "script/convert.go GetBigRat"), ("CSV/JSON", "script/convert.go")],
  ["import/generate output"])

p("C22", "The loader reads exactly what the ledger says",
  "Loading a well-formed ledger gives exactly its transactions: dates, payees, notes, accounts, currencies and exact decimal amounts in every permitted notation (sign, thousands separators, currency before or after, quoted names, comments, spacing), with each amount-less posting receiving exactly the balance remaining at that point, in every open currency. Repeated date and payee pairs are kept apart by numbering, and all prices are recorded.",
  ["inputs"], "for every well-formed ledger text",
  "No test loads a ledger file.",
  ["loader/parser.go", "loader/lexer.go", "book/builder.go"],
  [("grammar", "loader/parser.go"), ("amounts", "loader/lexer.go parseAmt"), ("implicit amounts", "loader/parser.go parsePosting"), ("numbering of repeats", "book/builder.go NewTransaction")],
  ["book after LoadBook"])

p("C23", "Includes and aliases have lexical scope",
  "An include reads the named file, relative to the including file, at that point as if it stood there. An alias applies from its line to the end of its file and inside files included after it, replaces only the exact account name, and never leaks from an included file back to the including one or to files included before it.",
  ["inputs"], "for every tree of included files and every placement of aliases",
  "No test uses include or alias.",
  ["loader/parser.go"],
  [("copied alias map per file", "loader/parser.go parseFileLocal")],
  ["book after LoadBook"])

p("C24", "Ledger output can be loaded back to the same book",
  "Exporting a book (or writing a report, import or generated book) in ledger form and loading that text again gives the same transactions, payees, notes, accounts, currencies, amounts at the ledger's own precision, and prices, whatever the language setting.",
  ["inputs", "configurations"], "for every ledger that loads, every language, with or without operations applied",
  "No test exports anything.",
  ["cmd/export/ledger.go", "cmd/reports/ledger.go", "cmd/app/print.go", "loader/parser.go"],
  [("ledger writer", "cmd/export/ledger.go ShowLedger; cmd/reports/ledger.go ShowLedger"), ("number and symbol formatting", "cmd/app/print.go")],
  ["export/report/import text, reloaded"])

p("C25", "Machine-readable outputs are complete and faithful",
  "CSV and JSON exports and reports contain exactly one record per posting (per entry for the register) of the book in order, each with its own date, payee, transaction note, account, currency, posting note and amount (exact to double precision); any text survives the encoding.",
  ["inputs"], "for every book and every text in payees, notes, accounts and currencies",
  "No test runs an export.",
  ["cmd/export/csv.go", "book/posting.go", "book/transaction.go", "book/registry.go", "cmd/register/show_register.go"],
  [("CSV", "cmd/export/csv.go ShowCSV"), ("JSON", "book/posting.go, book/transaction.go, book/registry.go MarshalJSON")],
  ["export/report/register output"])

p("C26", "Beancount output opens and closes accounts consistently",
  "In Beancount output every account is opened exactly once, no later than its first posting, and closed at most once, only after its last posting and only if it ends with a zero balance in every currency; every posting and price of the book appears exactly once with its amount and currency.",
  ["inputs"], "for every book",
  "No test exports anything.",
  ["cmd/export/beancount.go", "cmd/reports/beancount.go"],
  [("open/close bookkeeping", "cmd/export/beancount.go ShowBeancount; cmd/reports/beancount.go ShowBeancount")],
  ["export/report --type=beancount output"])

p("C27", "Queries and duplicates never change the book",
  "Reading transactions, prices, accounts, registers or summaries from a book never changes what any later read shows, in any order and any number of times. A duplicate of a book and its original are independent: no operation on one is visible in the other.",
  ["histories", "programs"], "for every interleaving of queries and operations on a book and its duplicates",
  "Tests run each query once on a fresh book; aliasing shows only in histories.",
  ["book/book.go", "book/book_accum.go", "book/registry.go", "book/price.go"],
  [("copying", "book/book.go Duplicate"), ("summary works on appended postings", "book/book_accum.go Accumulate")],
  ["repeated reads of book and duplicate"])

p("C28", "A bank state file is replaced whole or not at all",
  "Whatever happens while the download state is being saved (crash at any point, full disk, failing write or close), the state file afterwards contains either the complete previous state or the complete new state, plain or compressed, and a save that did not complete is reported as an error. A state that was saved is read back equal.",
  ["crash_points", "fault_sequences", "inputs"], "for every crash point and fault during a save, every state and both file forms",
  "No test saves state; crashes and faults cannot be sampled by unit tests.",
  ["cmd/utils/json.go"],
  [("save", "cmd/utils/json.go SaveToFile"), ("load", "cmd/utils/json.go LoadFromFile")],
  ["file content after save", "error of the save"])

p("C29", "Bank synchronisation merges everything and loses nothing",
  "After a synchronisation the state holds every transaction and account the bank has to give (in the window asked for), each in its latest version under its own id, and still everything it held before; repeating the synchronisation against an unchanged bank changes nothing. It always terminates, also when a full page of transactions falls within one minute; one in which a request fails says so and leaves the transactions and accounts of the state file as they were (a renewed access token is kept), and a damaged state file is refused, not overwritten.",
  ["histories", "fault_sequences"], "for every history of bank states, pagings and failing requests",
  "No test touches the download code.",
  ["cmd/download/monzo.go", "cmd/download/starling.go", "cmd/download/nordigen.go", "cmd/download/net.go"],
  [("Monzo paging", "cmd/download/monzo.go GetAllTransactions"), ("Starling feeds", "cmd/download/starling.go syncFeed"), ("Nordigen merge", "cmd/download/nordigen.go RefreshAccounts")],
  ["state file after download", "requests seen by the server"])

p("C30", "The same input always gives the same output",
  "Running the same command on the same files with the same options and date always produces byte-identical output, however accounts, currencies and prices are named.",
  ["schedules", "inputs"], "for every ledger and command, over the runtime's random map iteration orders",
  "A test runs once; map order changes per run.",
  ["cmd/export/ledger.go", "cmd/export/beancount.go", "cmd/reports/beancount.go", "cmd/currencies/currencies.go", "book/book_accum.go", "book/book_utils.go", "book/book_reclassify.go"],
  [("map iteration feeding output", "cmd/export/*.go, cmd/currencies/currencies.go, book/book_accum.go")],
  ["output bytes over repeated runs"])

p("C31", "Operation strings and macros mean the sequence they spell",
  "Operations are applied strictly left to right and a macro means exactly its listed operations in order, at any nesting depth; the operation's arguments are taken literally from between the slashes. An unknown, malformed or self-referencing operation is rejected with an error, and nothing is printed as if it had been applied.",
  ["programs", "configurations"], "for every list of operation strings and every macro table",
  "No test parses an operation.",
  ["cmd/app/book_op.go"],
  [("dispatch", "cmd/app/book_op.go bookOp"), ("argument expressions", "cmd/app/book_op.go *_op")],
  ["BookOps result and transactions"])

p("C32", "Text tables align and never truncate or alter content",
  "In text output (without a terminal) every row of a table shows each of its cells completely, padded to the width of the widest cell of that column as seen on screen, so columns line up regardless of colours, non-ASCII text or empty rows. Numbers are shown with their currency's number of decimals and correctly rounded, negative and positive amounts distinguishable, and turning colours off changes nothing but the colour codes.",
  ["inputs", "configurations"], "for every table content, language and colour setting",
  "One test covers two padding samples.",
  ["cmd/app/print.go", "cmd/reports/text.go", "cmd/register/show_register.go"],
  [("column layout", "cmd/app/print.go PrintColumns, PadString, Length"), ("numbers", "cmd/app/print.go FormatNumber")],
  ["text output of report, register, accts"])

p("C34", "A terminal shows the same table, fitted to it, and the pager loses nothing",
  "When output goes to a terminal and a register's lines are too wide for it, its name columns (payee, account, counter-account) are narrowed in equal proportion until the lines fit, as far as they can; dates, amounts, balances and column order are never cut or changed, a narrowed text is the beginning of the full one with its colour, and a table that fits is exactly as without a terminal. When a table has more lines than the terminal, it and all that follows go through the pager, complete and in order, and without a pager straight to the terminal.",
  ["inputs", "configurations"], "for every table, terminal size, colour setting and presence of a pager",
  "The tests never run with a terminal; the claim is over all sizes.",
  ["cmd/app/print.go", "cmd/app/app.go", "cmd/register/show_register.go"],
  [("narrowing columns", "cmd/app/print.go PrintColumns"), ("cutting and padding", "cmd/app/print.go PadString"), ("pager", "cmd/app/app.go initialiseLess")],
  ["what register, report and accts write to a terminal and to the pager"])

p("C35", "An HTML report shows every row, nested by level, as the text it is",
  "An HTML report is a well-formed page that has one box per shown transaction, side by side and in order, each with its date, its payee (if it has one) and one row per posting in order with its account label and its amount formatted as in text; a row lies inside as many nested boxes as its level in the account tree. Names appear as the texts they are, never as markup. The style is the one asked for (a text, or the content of a file), and a style file that cannot be read is an error.",
  ["inputs", "configurations", "programs"], "for every ledger, sequence of operations and report settings",
  "No test writes a page.",
  ["cmd/reports/html.go", "cmd/utils/cli_file_or_str.go"],
  [("page, boxes and rows", "cmd/reports/html.go ShowHTMLTransactions"), ("style", "cmd/utils/cli_file_or_str.go GetFileOrStr")],
  ["output of report --type HTML"])

p("C33", "Configuration and command line combine predictably",
  "A setting takes its value from the command line if given there, otherwise from the first configuration file found, otherwise the built-in default; unknown settings or values are rejected. The configuration written on a first run is itself accepted by later runs, which behave the same as the first one.",
  ["configurations", "histories"], "for every configuration file and set of options, first and later runs",
  "No test loads a configuration.",
  ["cmd/config.go", "cmd/root.go", "cmd/utils/types.go", "cmd/utils/cli_config.go"],
  [("search and decode", "cmd/config.go load"), ("flag defaults", "cmd/root.go Execute"), ("enumerated options", "cmd/utils/types.go")],
  ["behaviour and exit status of the command line"])

p("C36", "A command that could not read or show everything says so",
  "A command (other than help texts and bank downloads) that ends with success has read everything it had to read and written everything it had to show: if a file it needs cannot be opened or read, or what it writes (standard output, redirected to a file, a full disk or a closed pipe, and the files it makes) cannot be written completely, it ends with a failure status and a message on standard error, never with success and less. What it has shown until then is the beginning of what it would have shown without the fault; a write or read that is cut short or interrupted is carried on with; nothing crashes or hangs. Whatever failed on the way, and wherever a run was stopped, a later run without faults shows what it would have shown without it: no half-made configuration file is left to be taken for a whole one.",
  ["fault_sequences", "crash_points", "inputs", "configurations"], "for every command, ledger and configuration, and every call on a file failing, cut short or being the last, also several runs in a row",
  "No test runs a command with anything failing.",
  ["cmd/app/app.go", "cmd/app/print.go", "cmd/root.go", "cmd/config.go", "cmd/export/csv.go", "cmd/accounts/accounts.go", "cmd/importer/import.go", "cmd/utils/cli_file_or_str.go", "loader/parser.go", "script/convert.go"],
  [("writing output", "cmd/app/app.go checkedWriter, OutputError"), ("status", "cmd/root.go Execute"), ("making a configuration", "cmd/config.go load"), ("reading ledgers", "loader/parser.go ParseFile"), ("reading data and scripts", "script/convert.go, cmd/utils/cli_file_or_str.go")],
  ["exit status, standard output and standard error of every command"])

p("C37", "Commands leave the user's files alone",
  "Commands that show something (all but bank downloads) only read: whatever the command, its flags, the configuration, the input and whatever fails on the way, no ledger, price file, bank data, script, style file or existing configuration is changed, truncated, renamed, removed or made, not even for a moment; a file that is asked for and is not there is not made. The only files a command makes are the configuration where there was none, and the pages of the manual where they were asked for.",
  ["inputs", "configurations", "fault_sequences", "histories"], "for every command, ledger, configuration and fault, at every call of the run",
  "No test looks at the files a command leaves.",
  ["loader/parser.go", "loader/loader.go", "cmd/config.go", "cmd/importer/import.go", "cmd/generate/generate.go", "cmd/utils/cli_file_or_str.go", "cmd/utils/docs.go", "script/convert.go"],
  [("opening ledgers", "loader/parser.go ParseFile"), ("making a configuration", "cmd/config.go load"), ("reading data", "script/convert.go, cmd/utils/cli_file_or_str.go"), ("the manual", "cmd/utils/docs.go")],
  ["every file in the folder of the run, before and after, and every call that changes one"])

p("C38", "Commands that run at the same time do not disturb each other",
  "Commands that run at the same time over the same files, in any order of their steps, each show what they would show alone, also when there is no configuration yet and each of them makes it: each ends with success, none sees a configuration that is only partly there, and a whole one is there afterwards.",
  ["schedules", "histories", "configurations"], "for every pair of commands and every order of their calls (executed: one runs from beginning to end while the other waits before any of its calls)",
  "Tests run one thing at a time.",
  ["cmd/config.go", "cmd/root.go", "cmd/app/app.go", "loader/loader.go"],
  [("making a configuration", "cmd/config.go load"), ("loading", "cmd/app/app.go Load, loader/loader.go")],
  ["standard output, standard error, exit status and the configuration file of every command"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
