#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept in one place so ids stay stable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

A, L, PA, T, C = "accounting.go", "backend/ledger/ledger.go", "backend/ledger/parser.go", "backend/txtdb/txtdb.go", "cmd/ledger/main.go"

p("C01", "Only balanced transactions enter the books",
  "A journal is accepted only if, in every transaction, the posted amounts (a posting that carries a price counts as its total price) add up to exactly zero in every currency, except that a remainder in exactly two currencies is taken as an exchange of one for the other. A journal with any other transaction is refused with an error and no ledger is handed out. A journal whose transactions all satisfy the rule is never refused for imbalance.",
  ["inputs"], "every journal: any number of transactions, postings, currencies, priced postings and amounts whose sums fit 92 thousand million units, and every other backend that hands over raw transactions",
  "No existing test opens a ledger at all; a sample of transactions cannot cover the combinations of currencies, prices, omitted amounts and off-by-one-unit remainders.",
  [A, PA], [("balance check of each transaction", A + ": Ledger.Fill"), ("total price of a posting", PA + ": readJournal")],
  ["result of Open", "Ledger.Transactions[*].Splits[*].Value", "exit status of the ledger command"])
p("C02", "Omitted amounts are completed exactly, written ones never altered",
  "A posting written without an amount receives exactly the amount that makes its transaction balance (zero if the rest already balances), in the right currency, whatever its position in the transaction. Amounts that were written are kept to the last digit. Two postings without amount in one transaction, or one facing a remainder in two or more currencies, are refused with an error.",
  ["inputs"], "every transaction with one omitted amount at any position, among priced, asserted and dated postings, in any currency",
  "The existing tests never complete a transaction; the rule must hold for every position, mix of prices and amount.",
  [A], [("completion of the posting without amount", A + ": Ledger.Fill")], ["Ledger.Transactions[*].Splits[*].Value after Open", "output of ledger print"])
p("C03", "Account histories and running balances are exact",
  "Every posting of every transaction appears exactly once in the history of its own account and in no other; each history is in chronological order of the postings' dates, and postings of the same moment keep the order in which the journal has them. The balance attached to each posting is, currency by currency, the sum of all amounts of that account up to and including that posting, without entries of zero.",
  ["inputs", "histories"], "every accepted journal, including postings dated differently from their transaction, several postings of one transaction in one account, and many currencies per account",
  "Nothing tests running balances; the property ranges over orderings of arbitrarily many postings.",
  [A, T], [("collecting and sorting postings per account", A + ": Ledger.Fill"), ("running balance", A + ": Ledger.Fill, Balance.Add, Balance.Dup")],
  ["Ledger.Accounts[*].Splits", "Split.Balance"], [("Account.Splits", "history of an account", "types.go"), ("Split.Balance", "balance after the posting", "types.go")])
p("C04", "Balance assertions are enforced and can supply the amount",
  "A posting that asserts a balance is accepted only if the account's balance in the asserted currency right after that posting is exactly the asserted amount (a currency the account does not hold counts as zero); otherwise the journal is refused with an error. A posting with an assertion but no amount receives exactly the amount that makes the assertion true, and the rest of its transaction is completed accordingly. A true assertion never causes a journal to be refused and never changes any balance.",
  ["inputs", "histories"], "every journal with assertions at any posting: zero balances, currencies never held before, negative balances, several assertions per account and per transaction, chains in which an asserted amount feeds a later omitted one",
  "No existing test has an assertion; correctness depends on the whole history before the posting.",
  [A], [("assertion pass, alternating with completion of transactions", A + ": Ledger.Fill")], ["result of Open", "Split.Value and Split.Balance of asserted postings"],
  [("Ledger.Assertions", "asserted balance per posting", "types.go")])
p("C05", "The books balance at every instant, whatever the posting dates",
  "At every moment, the balances of all accounts, including the automatic transfer account, add up per currency to what the exchanges and priced postings dated up to then leave over, hence to zero where there are none, even when the postings of one transaction carry different dates. The transfer account holds exactly the amounts in transit at that moment: the postings whose transaction has come but which have not, minus those that have come before their transaction. Without differently dated postings the transfer account has no postings.",
  ["inputs", "histories"], "every journal and every instant; postings dated before, at or after their transaction, with seconds resolution",
  "Nothing tests posting dates; the statement quantifies over all instants of all histories.",
  [A, "types.go"], [("automatic postings of the transfer account", A + ": Ledger.Fill")], ["Ledger.GetBalance(account, t) for all accounts and t", "Ledger.Accounts[*].Splits"],
  [("TransferAccount", "account with the amounts in transit", "types.go")])
p("C06", "Written amounts are read exactly or refused, never misread",
  "An amount written with optional sign, optional thousands grouping, optional decimals (up to 8) and its currency before or after, glued or spaced, is read as exactly that number in that currency, using the decimal and thousands marks established for the currency when it was first seen. Text that is ambiguous (one mark that could be either), wrongly grouped, uses a mark twice as decimal, has more than 8 decimals, lacks digits or is too large to be represented is refused with an error. A refused amount never changes how other amounts are read or shown.",
  ["inputs", "histories"], "every amount text in the documented syntax with the marks . , ' _ and every sequence of such amounts in one journal, up to the representable limit of 92233720368.54775807",
  "TestGetValue has 17 strings; the reading of each depends on the currency's history, so sequences matter, and the input space is unbounded.",
  [PA], [("amount reader", PA + ": getValue")], ["Split.Value, Price.Value and Assertions after Open", "stderr of Open for refused amounts"], [("Currency.Thousand/Decimal/Precision", "format established for a currency", "types.go")])
p("C07", "Amounts are displayed exactly and in their currency's format",
  "The full display of an amount denotes exactly that amount; the default display is the amount cut (not rounded) to the currency's number of decimals. Both use the currency's decimal mark, group the integer part in threes with its thousands mark if it has one, carry the sign exactly when the amount is negative, and place the currency name before or after, with or without a space, as the currency says.",
  ["inputs"], "every 64-bit amount, every precision from 0 to 8 and every combination of marks, name, placement and spacing, with and without the currency name",
  "TestCurrencyString samples 30 amounts, none for the full display.",
  [A], [("formatting", A + ": Value.GetString, String, FullString, Balance.String")], ["Value.GetString / String / FullString", "Balance.String"])
p("C08", "A printed ledger reads back as the same ledger",
  "The journal text produced from any opened ledger is itself a valid journal that opens without any error or syntax complaint, and gives the same accounts (with codes and comments), currencies with their display format, transactions (date to the second, description, comments), postings (account, date, exact amount, price, assertion, comments), declared and implied prices, and default currency. Printing what was read back gives a ledger with the same content again, any number of times.",
  ["inputs", "histories"], "every ledger opened from a journal in the documented syntax or from a txtdb database (whose names and texts can be written in a journal at all), and repeated print/read cycles",
  "There is no export test; the round trip couples the writer and the reader over every feature combination.",
  [L, PA, A, "cmd/acc/main.go"], [("writer", L + ": Export"), ("reader", PA + ": readJournal")], ["output of ledger print and acc", "ledger opened from that output"])
p("C09", "Clones are complete and independent",
  "A clone has the same content as the original in every respect: accounts and their tree, transactions, postings with values, dates and balances, currencies including unlisted ones, prices, comments, assertions, posting prices and default currency, so that every report on it is identical. All references inside a clone stay inside the clone with the same sharing structure. Nothing done to the clone is visible in the original, or the reverse.",
  ["inputs", "histories"], "every opened ledger and every sequence of modifications (including recalculation) applied to either side after cloning, clones of clones included",
  "No test clones anything; an alias may hide in any field of any object of an arbitrary graph.",
  [A], [("deep copy through identity maps", A + ": Ledger.Clone")], ["object graph of Ledger.Clone()", "reports before and after mutating one side"])
p("C10", "Currency conversion follows the known prices",
  "Converting into the same currency changes nothing; with prices quoted directly for the pair, the rate is the price of that very moment, else the linear interpolation in time between the closest earlier and later prices, else the closest one that exists; an interpolated rate and the resulting amount are each exact to within the smallest unit. Without direct prices the amount goes through other currencies, taking the quote closest in time first. A conversion succeeds whenever some chain of quotes leads to the target, reports an error otherwise, and always ends.",
  ["inputs", "histories"], "every price list (cycles, equal moments, one-way quotes, several intermediates), every moment before, between, at and after the quotes, positive and negative amounts, missing target currency",
  "No test converts; the result depends on the whole price history and on the shape of the quote graph.",
  [A], [("rate lookup, interpolation and chaining", A + ": Ledger.Convert"), ("multiplication", A + ": Value.Mul")], ["Ledger.Convert", "ledger --market and ledger price"], [("Ledger.Prices", "price history sorted by time", "types.go")])
p("C11", "Declared and implied prices are recorded exactly",
  "The price list of an opened ledger is in chronological order and contains every declared price unchanged. It also contains, for each exchange of two currencies and for each posting with a non-zero price and amount, one quote in each direction dated as the transaction or posting, equal to the ratio of the amounts to within the smallest unit, and nothing else. A zero price implies no quote.",
  ["inputs"], "every journal with declared prices, two-currency transactions, unit prices and total prices, including zero and negative amounts and differently dated postings",
  "No test looks at prices.",
  [A, PA], [("implied quotes", A + ": Ledger.Fill"), ("declared prices and unit prices", PA + ": readJournal")], ["Ledger.Prices after Open", "output of ledger print"])
p("C12", "The same input always gives the same result",
  "Opening the same journal and running the same report twice, in the same process or in different ones, gives byte-identical output and the same ledger: order of accounts, transactions, postings, prices and balances included. In particular conversions do not depend on anything but the journal.",
  ["inputs", "schedules"], "every journal (many priced postings at the same moment, many comments, many currencies) and every repetition",
  "A test that runs once cannot see dependence on map iteration order; it needs many repetitions over many journals.",
  [A, L, C], [("ordered recalculation", A + ": Ledger.Fill"), ("ordered output", L + ": Export")], ["output of ledger print, balance, price over repetitions"])
p("C13", "Ledgers in one process are independent, also concurrently",
  "Any number of ledgers may be opened, used and closed in one process, one after the other or at the same time from different goroutines, and each has exactly the content and results it would have on its own. Opening, registering backends, and read-only use of ledgers from several goroutines are free of data races.",
  ["schedules", "histories"], "every interleaving of opening, registering, querying, converting, cloning and printing on any set of ledgers",
  "The tests are sequential and open nothing; races and leaks between ledgers need several live ledgers and real concurrency.",
  [A, "types.go", "backend.go"], [("registry lock", A + ": Open, Register"), ("per-ledger automatic account", A + ": Ledger.Fill")], ["race detector reports", "ledger content compared with the same journal opened alone"])
p("C14", "No input crashes or hangs the system",
  "Whatever the bytes of the journal, its included files or the txtdb database, opening ends with either a ledger or an error: it never panics, never terminates the process on its own, and never runs without bound, also when files include themselves. On every ledger that opens, printing, cloning, querying, balances, recalculating and conversion between any of its currencies likewise end without a panic.",
  ["inputs"], "every byte string as journal content and every sequence of operations on the resulting ledger",
  "Hostile input is not sampled by the tests at all.",
  [A, PA, L, T], [("line reader and syntax checks", PA + ": readJournal, getValue"), ("zero guards", A + ": Ledger.Fill, Convert")], ["termination status of the operation", "exit status and stderr of the commands"])
p("C15", "Nothing in the input is lost silently",
  "If the journal cannot be opened or read to its end, opening fails with an error instead of giving a shorter ledger; the same holds for included files that break off, while an included file that cannot be opened is reported. Every line whose content cannot be taken into the ledger (unknown directive, malformed date, amount, price or tag, posting without transaction) is reported with its file name and line number, or refused with an error naming it. Such a line changes nothing else: its postings are not attached to another transaction and all other lines mean what they would mean without it.",
  ["inputs", "fault_sequences"], "every journal with unusable lines at any position, missing, unreadable, truncated or over-long input",
  "The tests contain no faulty journal.",
  [PA, L], [("error propagation", L + ": driver.Open; " + PA + ": readJournal, Scanner"), ("line diagnostics", PA + ": readJournal")], ["result of Open", "log output", "exit status of the ledger command"])
p("C16", "txtdb databases are loaded faithfully",
  "Opening a txtdb directory gives one account per well-formed account line, with its identifier, name, code and parent, and one transaction per balanced run of movement lines, with the date, description, accounts and amounts exactly as written (to the cent), in the order of the file. A line that gives a resulting balance instead of an amount asserts that balance, and a movement dated differently from the first of its transaction keeps its own date. Lines that cannot be used (badly formed, with a wrong date, account or amount) are pointed out by their number and change nothing else, lines that can be used are not complained about, and a transaction that never balances is pointed out. The opened ledger satisfies the same rules as any other and can be printed as a journal with the same content.",
  ["inputs"], "every txtdb directory, with wrong lines or without: any account tree, amounts, dates with and without time",
  "The txtdb backend has no tests.",
  [T, A], [("file reader", T + ": conn.read")], ["accounting.Open on a directory", "output of acc"])
p("C17", "The balance report agrees with the postings",
  "For every account the balance report shows, per currency, the sum of all its postings dated up to the end date (begin date notwithstanding, what was there before is carried in); its total is the sum of the lines shown. Naming accounts selects exactly the accounts whose full name contains one of the given texts (ignoring case) and their descendants, each once; a currency restriction keeps exactly those currencies; a restriction to transactions involving given accounts counts exactly those transactions. A report with a balance or total too big to be represented is refused with a message.",
  ["inputs", "configurations"], "every journal and every combination of begin and end date, account patterns, currency and pivot options",
  "No command is tested.",
  [C, A], [("period cut and pivot", C + ": main2, doPivot"), ("report", C + ": runBalance")], ["standard output of ledger [-b] [-e] [--pivot] [--currency] [--total] balance"])
p("C18", "Period reports count each posting of the period exactly once",
  "The delta of a set of accounts over a period is the sum of their postings dated within it (ends included), each counted once however many of the given texts match; deltas of adjoining periods add up to the delta of the joint period, and the negate option only changes the sign. The income statement shows, for each income account minus, and for each expense account plus, the sum of its postings in the period, and totals and net that agree with those lines. With a pivot only postings of transactions involving a matching account count. A report with a total too big to be represented is refused with a message.",
  ["inputs", "configurations"], "every journal, every partition of time into periods, every choice of account patterns, negate, total and pivot options",
  "No command is tested; additivity is a statement about all partitions.",
  [C], [("period cut", C + ": main2"), ("reports", C + ": runDelta, runIncomeStatement, doPivot")], ["standard output of ledger -b -e delta / incomestatement"])
p("C19", "Reports in one invocation do not affect one another",
  "When several reports are requested in one invocation of the ledger command, the output is the concatenation, in order, of what each of them prints when run alone with its own options. No period, pivot, currency or other option of one report carries over to another, and none is skipped or repeated.",
  ["inputs", "histories", "configurations"], "every journal and every sequence of reports with any options, empty separators included",
  "No command is tested; interference shows only in particular sequences.",
  [C, A], [("a fresh clone per report", C + ": main")], ["standard output and exit status of ledger with --"])
p("C20", "Queries about accounts, balances and intervals are exact",
  "The balance of an account at a moment is the balance after its last posting dated at or before that moment, and nothing (or its opening balance) if there is none; without a moment it is the final balance. The transactions in an interval are exactly those dated from its start to its end inclusive, in order; the transactions of an account are exactly those with a posting in it, once each, in order; looking up an account by identifier gives that very account, or nothing if there is none.",
  ["inputs", "histories"], "every ledger, account, identifier, moment and interval, including moments before the first posting and exactly at a posting",
  "No test queries a ledger.",
  [A], [("queries", A + ": GetBalance, TransactionsInAccount, TransactionsInInterval, Account")], ["return values of the query methods"])
p("C21", "Balances form an exact per-currency sum",
  "Adding and subtracting amounts and whole balances acts currency by currency with exact integer sums: the result does not depend on order or grouping, adding and subtracting the same thing restores the balance, no currency appears twice and none with amount zero. A duplicate of a balance is equal to it and independent of it. Multiplying an amount by another scales it exactly, to within the smallest unit.",
  ["inputs", "histories"], "every sequence of additions, subtractions, duplications and multiplications on any number of balances and currencies, including a balance added to or subtracted from itself",
  "No test touches balances; removal of zero entries makes the outcome depend on the sequence.",
  [A], [("balance arithmetic", A + ": Balance.Add, Sub, AddBalance, SubBalance, Dup, Value.Mul")], ["contents of Balance after each operation"])
p("C22", "The chart of accounts is a consistent tree",
  "Accounts form a forest: each account is listed once, after its parent and together with its descendants; it is among the children of its parent and of no other account; its level is its number of ancestors; its full name is the path of names to it, and full names are unique. Every account mentioned in the journal exists together with all its ancestors, and mentioning it again refers to the same one.",
  ["inputs"], "every journal and every other source of accounts, in whatever order accounts are mentioned, at any depth",
  "No test builds an account tree.",
  [A, PA], [("tree reconstruction", A + ": Ledger.Fill, insertAccount"), ("lookup by full name", PA + ": getAccount")], ["Ledger.Accounts", "output of ledger accounts [-tree]"])
p("C23", "Splitting a journal into included files changes nothing",
  "A journal split between its entries (a directive or transaction with its indented lines) into any tree of included files opens to the same ledger as the single file with the same lines, wherever the process was started and however the parts are laid out in directories; relative names are resolved from the including file. Diagnostics and identifiers name the file and line where the text really is.",
  ["inputs", "configurations"], "every journal, every way of cutting it into nested and sequential includes over any directory layout, absolute and relative names",
  "No test includes a file.",
  [PA], [("file stack", PA + ": Scanner.NewFile, Scanner.Line")], ["ledger opened from the split journal", "IDs and messages"])
p("C24", "Dates are read as written, and period bounds include their whole span",
  "A date in any of the accepted spellings denotes that calendar moment: a day alone means noon, otherwise the hour, minute and second given; anything that is not an existing date and time is refused. As a period bound a year, month or day alone stands for its first second as begin and its last second as end, inclusive.",
  ["inputs", "configurations"], "every date and time from year 1 on, every accepted separator, every year, month (leap years included) and day as begin and end bounds",
  "No test parses a date.",
  [PA, C], [("date reader", PA + ": GetDate"), ("period bounds", C + ": main2")], ["ledger.GetDate", "which transactions reports with -b / -e take in"])
p("C25", "Recalculating a ledger is idempotent",
  "Recalculating an opened ledger again, any number of times, succeeds and leaves its content exactly as it was: no posting, price, comment or account is added, lost, duplicated or reordered, the transfer account included. After the user changes posting amounts, dates or adds transactions, recalculating gives the same ledger as building it so from the start.",
  ["inputs", "histories"], "every opened ledger, with any number of repetitions, differently dated postings, exchanges and priced postings included",
  "No test recalculates.",
  [A], [("recalculation", A + ": Ledger.Fill")], ["Ledger content after repeated recalculation"])
p("C26", "Backends are chosen by name and trusted with what they implement",
  "Opening uses exactly the backend named by the scheme of the data source (or, without scheme, the first registered of ledger, txtdb and postgres), hands it the data source unchanged, and returns its error if it fails; an unknown scheme is an error. Registering a missing backend or a name twice panics and leaves the registry as it was. A query or modification goes to the backend if it implements it, with unchanged arguments and result; otherwise queries are answered from the ledger, modifications fail with an error, and flushing succeeds.",
  ["inputs", "histories", "configurations"], "every data source string, registry content, subset of optional operations implemented by a backend, and failing backend",
  "No test registers or opens a backend.",
  [A, "backend.go"], [("registry", A + ": Register, Open"), ("optional interfaces", A + ": Account, TransactionsIn*, NewAccount, EditAccount, NewTransaction, EditTransaction, Flush, Close, Refresh")], ["calls seen by an instrumented backend", "return values"])
p("C27", "Comments and tags stay with what they were written on",
  "A comment written on the line of an account, currency, price, transaction or posting, or on indented lines right below it, belongs to exactly that object, in the order written and with its text unchanged. The tags for the account code, the currency's security code and the posting's date, which are whole words, set those attributes instead, and text before them is still a comment; any other tag remains an ordinary comment. Comments never change amounts, balances or the meaning of other lines.",
  ["inputs"], "every journal with comments and tags in any number and position, of every comment character",
  "No test has a comment.",
  [PA], [("comment attribution", PA + ": readJournal, addComment, getTag")], ["Ledger.Comments", "Account.Code, Currency.ISIN, Split.Time", "output of ledger print"])
p("C28", "Market valuation agrees with conversion at the period's ends",
  "With the market option, the balance report shows each account's balance with every currency converted into the default currency at the end date, and totals that are the sums of what is shown; delta shows the converted value of the balance at the end of the period minus that at its beginning, each converted at its own date; the price report shows the conversion of one unit at the end date with all its digits. If a conversion is impossible or there is no default currency the command fails with an error message and a non-zero status.",
  ["inputs", "configurations"], "every journal with prices and default currency, every period and set of accounts or currencies",
  "No command is tested.",
  [C, A], [("market conversion", C + ": runBalance, runDelta, runPrice")], ["standard output and exit status of ledger --market balance / delta and ledger price"])
p("C29", "PostgreSQL data sources are loaded faithfully or not at all",
  "Opening a PostgreSQL data source gives exactly the accounts (identifier, name, code), transactions and postings which the database returns, with their dates, descriptions and amounts to the cent, under the same rules as any other ledger. Any failure to connect, error of the server, answer which is not what was asked, posting to an unknown account or connection which breaks part way is reported as an error: never a crash, and never a ledger with just what had arrived. The connections are given back when opening fails or the ledger is closed.",
  ["inputs", "fault_sequences"], "every content of the database and every failure at any point of the conversation with the server",
  "There is no test and no server.",
  ["backend/postgres/postgres.go", A], [("queries", "backend/postgres/postgres.go: Open, getAccounts, getTransactions, Close"), ("opening", A + ": Open")], ["accounting.Open on a postgres URL, Ledger.Close, and the connections seen by the server"])
p("C30", "The momentum report is the mean relative price change",
  "For each commodity named, in the order named, the momentum report prints the mean, over the requested number of measures, of the commodity's price at the end date divided by its price one, two, ... measuring periods earlier, minus one, prices being those that conversion into the default currency gives at those dates. If some of the prices needed cannot be obtained (unknown commodity, no chain of quotes) there is no report but an error message and a non-zero status.",
  ["inputs", "configurations"], "every price history, end date, measuring period in months and days, number of measures and list of commodities with known non-zero prices",
  "The command has no tests.",
  ["cmd/muscular/main.go", A], [("momentum computation", "cmd/muscular/main.go: main2")], ["standard output of muscular"])
p("C31", "Account lists and statistics describe the selected ledger",
  "The accounts report lists the full name of every account exactly once, parents before children, and its tree form indents each by its depth. The statistics report gives the dates of the first and last transaction of the period, the number of days they span inclusive, the exact numbers of transactions, accounts, currencies and prices, and the average that follows from them, or says that there are no transactions.",
  ["inputs", "configurations"], "every journal and period",
  "No command is tested.",
  [C], [("reports", C + ": runAccounts, runStats")], ["standard output of ledger accounts / stats"])
p("C32", "The browsers show the accounts and their postings",
  "The terminal browsers (tacc, and the ledger command when no report is asked for) list every account in the order of the ledger with its full name and its balance, at the end date if there is one. Choosing a line of that list shows the postings of that very account, in order, those of the period only and of transactions involving the pivot accounts if these were given, with the date, description and amount of each (an amount of zero may be blank) and the account's balance after it. A data source which cannot be opened is an error with a message and a non-zero status.",
  ["inputs", "configurations", "histories"], "every journal, period, pivot and sequence of accounts opened",
  "No command is tested, and the browsers need a terminal.",
  ["cmd/tacc/main.go", C], [("lists", "cmd/tacc/main.go and " + C + ": tableAccounts, tableTransactions")], ["what is handed over to the table widget, and standard error and status"])
p("C33", "A printed selection has exactly the transactions selected, unaltered",
  "Printing with a begin date, an end date or pivot accounts shows exactly the transactions dated in the period (ends included) which involve a pivot account, in the order of the ledger, each with the same date, description, comments, postings, amounts, prices and assertions as when everything is printed, and the whole chart of accounts.",
  ["inputs", "configurations"], "every journal, period and pivot",
  "No command is tested.",
  [C, "backend/ledger/ledger.go"], [("selection", C + ": main2, doPivot, runPrint"), ("printing", "backend/ledger/ledger.go: Export")], ["standard output of ledger print"])
p("C34", "Reading leaves the user's files alone and gives them back",
  "Opening a journal or txtdb data source, asking anything of its ledger, exporting, refreshing and closing it, and every report of the commands, never create, change, rename or remove a file, and need no permission but to read; a data source which does not exist is an error and is not created. After the ledger is closed, and after an opening which failed for whatever reason, none of the files it read is still open, and files included one after another are not held open together: any number of openings, or of included files, works with a modest limit of open files.",
  ["inputs", "histories", "fault_sequences"], "every data source, well formed or not, every report, any number of openings",
  "The two tests read one journal and look neither at the files nor at what is left open.",
  [PA, "backend/txtdb/txtdb.go", C], [("files of journals", PA + ": Scanner.NewFile, Scanner.Line, readJournal"), ("files of txtdb", "backend/txtdb/txtdb.go: read"), ("commands", C + ": main2")], ["the directories of the data sources before and after", "the descriptors of the process", "commands run by someone who may only read"])
p("C35", "The commands do what was asked, however it is said, or say that they did not",
  "The journal may be named with -f or in the environment (the option prevails), with or without its scheme, a report by its name or its abbreviations (a, b, bal, is), and options in any order and spelling: the output and status are the same, and acc prints what ledger print does. A successful command has status zero and at most warnings about undeclared names on standard error. Without a journal, or with one which does not exist or is wrong, an unknown scheme, report or option, an option without its value or with an impossible one (a period which is not a date, less than one measure), a command prints no report but an error message which names the culprit (the file, or the report), and ends with a non-zero status.",
  ["inputs", "configurations"], "every journal, environment and command line",
  "No command is tested.",
  [C, "cmd/acc/main.go", "cmd/muscular/main.go"], [("command lines", C + ": main, main2, commands"), ("others", "cmd/acc/main.go, cmd/muscular/main.go: main")], ["standard output, standard error and exit status"])
p("C36", "Undeclared names are pointed out, once, where they first appear",
  "While a journal is read, each account or (named) currency that is mentioned in a posting or price without having been declared, and without an earlier correct line having mentioned it (for an account, itself or one below it), is pointed out with one message naming the file, the line and the name: the first line that mentions it. Names which were declared in an earlier line (account, commodity, D), later mentions, and the parents of an account mentioned are not pointed out. The messages do not affect what is read nor the success of commands, and are the same whatever the report.",
  ["inputs", "configurations"], "every journal, however its declarations, prices and transactions are interleaved or split into files",
  "The tests do not look at messages.",
  [PA], [("mentions", PA + ": readJournal, getAccount, getValue, saveCurrencies")], ["messages of the standard logger in process, standard error of the commands"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
