# One entry per property: the statement, and the harnesses which decide it.
def H(pkg, fn, *reach, **kw):
    return dict(pkg=pkg, fn=fn, reach=list(reach), **kw)

P, NA = [], []

P.append(dict(id="C01", title="A book is accepted exactly when every transaction balances",
  statement="A ledger is turned into a book only if, in each of its transactions, the amounts of every commodity add up to exactly zero; a ledger with a transaction that does not is refused with an error. Balance is decided exactly, on fractions, whatever the number, order and commodities of the postings.",
  quant="all amounts (as exact fractions), numbers of postings and distributions of commodities over the postings",
  why="The tests build a few balanced books with fixed integers and never an unbalanced one.",
  files=["book/builder.go", "book/book.go", "cmd/app/app.go"],
  mech=[("running balance per commodity checked when a transaction ends", "book/builder.go NewTransaction, Build, AddPosting")],
  explain="The builder is executed symbolically on two transactions of three to four postings with symbolic amounts over two commodities, and on one transaction of mixed fractions; acceptance is compared with an independent sum.",
  outside=["more than two transactions or four postings per transaction", "amounts of numerators beyond one million"],
  harnesses=[H("hbook", "BuildBalance", "accepted", "refused"), H("hbook", "BuildFraction", "accepted", "refused"), H("hbook", "BuildTiny", "accepted", "refused"), H("hload", "Unbalanced", "accepted", "refused")]))

P.append(dict(id="C02", title="A book holds what was written, merged, sorted and running-totalled",
  statement="However the transactions are ordered in the input, a book lists its postings by date, payee, account and commodity, with one posting per such key carrying the exact sum of what was written for it and none of amount zero, so nothing written is lost or counted twice. Two transactions of the same date and payee stay apart under numbered payees, and the balance shown with a posting is the running total of its account and commodity up to it.",
  quant="all orders of transactions, dates, payees, accounts, commodities and amounts within the bounds",
  why="Tests compare the final balances of a few hand-written books; they never permute input or check merged sums.",
  files=["book/book.go", "book/book_compact.go", "book/builder.go", "book/posting.go", "book/transaction.go"],
  mech=[("sort and merge of equal keys, dropping zeroes, running balances", "book/book_compact.go compact"), ("numbering repeated payees of a date", "book/builder.go NewTransaction")],
  explain="Books of two and three transactions with symbolic dates, payees, accounts and amounts, and one transaction with up to seven postings in two commodities on shared accounts, are built by the real code and read back; every posting is compared with an independent sum over what was written.",
  outside=["more than three transactions, other than the long books of the harness", "more than seven postings in a transaction", "payee names longer than one character before numbering"],
  harnesses=[H("hbook", "CanonOrder", "end"), H("hbook", "CanonOrder3", "end"), H("hbook", "CanonMerge", "end"), H("hbook", "Many", "end")]))

P.append(dict(id="C03", title="Book operations transform postings as documented and conserve money",
  statement="Renaming or moving accounts, moving a share of an account, depreciating, renaming commodities and combining by period yield exactly the postings the operation documents, every transaction still balances in each commodity, and the result is again a merged, sorted book. Prices keep their dates and values: renaming a commodity renames it in them too, and nothing else changes them. Operations given one after the other act as each would alone on the result of the one before.",
  quant="all amounts, dates, accounts matched by the operations, and pairs of operations within the bounds",
  why="No test runs any book operation.",
  files=["cmd/app/book_op.go", "book/book.go", "book/book_compact.go", "book/book_utils.go"],
  mech=[("operations rewrite postings then compact", "book/book.go MapAccount, AdjustPost, AdjustBy, FloorBy, RegexCCY"), ("operation strings", "cmd/app/book_op.go bookOp")],
  explain="Each operation is given as a user writes it to the real operation dispatcher, on books with symbolic amounts, dates and accounts, and the whole book is compared with an independently computed list of postings; pairs of operations likewise.",
  outside=["regular expressions other than those in the harness", "books of more than two transactions", "sequences of more than two operations"],
  harnesses=[H("hbook", "Rename", "end"), H("hbook", "Move", "end"), H("hbook", "Depreciate", "end"), H("hbook", "Combine", "end"), H("hbook", "MapCCY", "end"), H("hbook", "MapPrices", "end"), H("hbook", "Sequence", "end")]))

P.append(dict(id="C04", title="Date filters keep exactly the transactions on their side of the date",
  statement="Filtering a book since a date keeps exactly the transactions on or after it, filtering as of a date keeps exactly those before it, whole transactions at a time and otherwise unchanged. The balance shown with a kept posting is the running total of its account and commodity over the kept ones.",
  quant="all transaction dates and cut-off dates",
  why="No test filters a book by date.",
  files=["book/book.go", "cmd/app/book_op.go"],
  mech=[("whole transactions are kept or left out", "book/book.go FilterTransaction; book/book_utils.go FilterByDateSince, FilterByDateAsof")],
  explain="Books with symbolic dates are filtered through the real operation dispatcher with symbolic cut-offs and compared with an independent filter.",
  outside=["books of more than two transactions"],
  harnesses=[H("hbook", "SinceAsof", "end")]))

P.append(dict(id="C06", title="Calendar arithmetic is exact for every date",
  statement="Day numbers count the days of the calendar one by one, so that a date converted to its day number and back is itself, the days between two dates are those the calendar has between them, and adding days to a date lands on the date that many days away. A date's fraction of years grows with every day and stays within its year.",
  quant="all valid dates of the years in the bounds and all day differences between them",
  why="Tests look at a dozen dates; leap days, century years and month ends number in the thousands.",
  files=["book/date.go"],
  mech=[("day numbers", "book/date.go AsDays, GetDateFromDays, AddDays, DaysSince"), ("year fractions", "book/date.go AsYears")],
  explain="The date functions are executed on symbolic years, months and days; the successor relation, the round trip and the addition are proved against an independent calendar, by induction fixing the number of every date.",
  outside=["years before 1801 and after 2200 (quick), before 1 and after 9999 (thorough)", "floating point rounding of year fractions, which are treated as exact"],
  harnesses=[H("hdate", "RoundTrip", "end"), H("hdate", "Successor", "end"), H("hdate", "AddDays", "end"), H("hdate", "AddFew", "forward", "back"), H("hdate", "Years", "end")]))

P.append(dict(id="C07", title="Periods start where the calendar says",
  statement="The start of a date's year, quarter or month, moved by any number of whole periods, is the first day of that period, so two dates fall together exactly when they share the period and order is kept. Years, months and quarters are written out as the calendar names them.",
  quant="all dates and all numbers of periods moved within the bounds",
  why="No test floors a date.",
  files=["book/date.go"],
  mech=[("floors with carry over years", "book/date.go FloorYear, FloorQuarter, FloorMonth, FloorDiff"), ("names", "book/date.go GetYear, GetYearMonth, GetYearQuarter, String")],
  explain="Floors and names are executed on symbolic dates and period counts and compared with month and quarter indices counted independently.",
  outside=["moves of more than 30 (quick) or 60 (thorough) periods", "years outside 1801-2200"],
  harnesses=[H("hdate", "Floors", "end"), H("hdate", "FloorGroups", "end"), H("hdate", "Names", "end")]))

P.append(dict(id="C08", title="Dates given as text are read as written",
  statement="Every date the programs write reads back as the same date, and a date typed year first or day first with any of the accepted separators, or as eight digits, or as a year or year and month alone, is the date it says; this, last and next year, quarter and month are the first day of the period today is in, of the one before and of the one after. Text that is no date, or one the calendar does not have, gives no date.",
  quant="all digit strings in the accepted shapes, all separators, all valid dates, every day today may be",
  why="No test parses a date.",
  files=["book/date.go"],
  mech=[("regular expressions for the accepted shapes", "book/date.go DateFromString")],
  explain="The reader is executed, regular expressions included, on strings of symbolic digits in every accepted shape and on arbitrary short strings, and for the names of periods with the clock on a symbolic day.",
  outside=["texts of other shapes longer than the bound"],
  harnesses=[H("hdate", "Written", "end"), H("hdate", "Formats", "ymd", "dmy", "compact", "ym", "y"), H("hdate", "NotDates", "end"), H("hdate", "Relative", "end")]))

P.append(dict(id="C09", title="Rates follow the quoted prices",
  statement="The rate between two commodities on a date is the price quoted for that day; between two quotes it lies on the straight line between them by days; before the first and after the last quote it is the nearest quote; and each of these is marked for what it is. Without quotes in one direction the rate is one over the other direction's, a commodity is worth one of itself, and a rate into something quoted at zero or nothing is known about is one and marked as missing.",
  quant="all prices, quote dates and dates asked about within the bounds",
  why="The tests ask for three dates of one short price list.",
  files=["book/price.go", "book/book.go", "book/builder.go"],
  mech=[("interpolation and inverse lookup", "book/price.go getPrice, GetPrice, GetIterator"), ("quotes are collected", "book/builder.go AddPrice")],
  explain="Price lists with symbolic quotes on chosen days are asked for rates on chosen days, in both directions and by iteration, and compared with independent interpolation.",
  outside=["more than three (quick) or four (thorough) quotes of a pair, other than the long lists of the harness", "dates other than those listed in the harness"],
  harnesses=[H("hprice", "Lookup", "exact", "outside", "between"), H("hprice", "Inverse", "exact", "outside", "between"), H("hprice", "Both", "end"), H("hprice", "Iterate", "end"), H("hprice", "LookupDays", "between"), H("hprice", "Unsorted", "exact", "outside", "between"), H("hprice", "Worthless", "zero", "not zero"), H("hprice", "Many", "exact", "outside", "between")]))

P.append(dict(id="C10", title="Report subtotals are the sums of what is beneath them",
  statement="In a summed report every transaction shows each account's own amount and, for every account that has others beneath it or amounts in another currency, a subtotal that is the exact sum, converted at the rate of its date, of all postings at or beneath it; nothing else is added. Rows are indented under the account they belong to with the largest first, credit accounts change only their sign, and a hidden account only disappears.",
  quant="all amounts, rates, orders of sizes and account trees within the bounds",
  why="Tests compare a few fixed reports; ties in size, very large amounts and accounts whose names start alike never appear in them.",
  files=["book/book_accum.go", "book/posting.go", "book/price.go"],
  mech=[("subtotals, sort keys by size, levels", "book/book_accum.go Accumulate, getSortOrderString, splitByStrings, findMaxCommonPrefix"), ("order of rows", "book/posting.go isLess")],
  explain="Books over several account trees with symbolic amounts are accumulated by the real code and every row compared with independent sums; the names read off the indentation must be the accounts, and siblings must come largest first.",
  outside=["more than four accounts in a transaction or two transactions, other than the long books of the harness", "rounding of amounts beyond the precision of a double in the order by size"],
  harnesses=[H("haccum", "OneCCY", "end"), H("haccum", "Cents", "end"), H("haccum", "Large", "end"), H("haccum", "TwoTxns", "end"), H("haccum", "TwoCCY", "end"), H("haccum", "Rates", "end"), H("haccum", "Signs", "end"), H("haccum", "Many", "end")]))

P.append(dict(id="C11", title="Asking a book changes nothing, and copies are independent",
  statement="Reports, registers, account lists, rates and transactions can be asked of a book in any order and any number of times: the book stays as it was, an answer does not depend on what was asked before, and it always comes to an end. A duplicated book holds what the original does, and changing either leaves the other, prices included, as it was.",
  quant="all amounts and rates, all pairs of questions, all operations applied to a copy or its original",
  why="No test asks a book twice or duplicates one; shared storage shows only when amounts happen to merge.",
  files=["book/book.go", "book/book_accum.go", "book/book_utils.go", "book/registry.go", "book/transaction.go", "book/price.go"],
  mech=[("reports work on copies of the postings", "book/book_accum.go Accumulate, addEmptyAccounts"), ("duplication", "book/book.go Duplicate"), ("renaming prices", "book/book_utils.go RegexCCY")],
  explain="A book with symbolic amounts and rate is asked every question, and every pair of questions, and its state and the answers compared before and after; every operation is applied to a copy or its original and the other compared.",
  outside=["books of more than two transactions", "questions other than those listed"],
  harnesses=[H("hquery", "Ask", "end"), H("hquery", "Ask2", "end"), H("hquery", "Copies", "end")]))

P.append(dict(id="C12", title="Registers list every matching posting with its exact running balance",
  statement="A register has, for every posting on a matching account, in the order of the book, a row with its amount and the accounts on the other side (or a row for each of these, sharing the amount out exactly, when split); the balance runs over the rows of its commodity and the base balance over all rows; and an amount in another commodity is converted into the base currency at the rate of the exchange in its own transaction if there is one, else at the rate of its date.",
  quant="all amounts, rates, matching accounts, splits and orders of transactions within the bounds",
  why="No test extracts a register.",
  files=["book/registry.go", "book/transaction.go"],
  mech=[("rows, balances and conversion", "book/registry.go ExtractRegister"), ("accounts on the other side, exchange in a transaction", "book/transaction.go GetCounterAccounts, InferRates")],
  explain="Books with symbolic amounts and rates are registered by the real code and every row compared with an independent register.",
  outside=["more than two transactions or four postings in one commodity, other than the long books of the harness", "regular expressions other than those in the harness"],
  harnesses=[H("hreg", "OneCCY", "end"), H("hreg", "Running", "end"), H("hreg", "Convert", "end"), H("hreg", "Many", "end")]))

P.append(dict(id="C14", title="A ledger file is read as it is written",
  statement="Every line of a ledger file is read as the file format says: dates, payees with their quotes and notes, accounts with aliases replaced, amounts with their exact value however many digits, whichever side the currency stands on and wherever the sign, prices, and included files in place. An amount left out is exactly what the transaction's other postings leave open in each currency. Comments, blank lines and directives that are not supported change nothing.",
  quant="all digit strings, sign and currency placements, header texts, accounts, dates and included files within the bounds",
  why="Tests parse a handful of example lines.",
  files=["loader/parser.go", "loader/lexer.go"],
  mech=[("line parser", "loader/parser.go parseTransaction, parsePosting, parseAmount, parsePrice, parseInclude"), ("scanner", "loader/lexer.go"), ("amount left out", "book/builder.go GetLastCCYBals")],
  explain="Ledger files with symbolic characters in every field are read by the real parser, and the transactions, postings and prices it hands over compared with those the text was made of.",
  outside=["texts longer than the bounds", "the format itself is fixed by the README and the ledger manual only as far as the harness needs"],
  harnesses=[H("hload", "Amounts", "end"), H("hload", "Headers", "accepted", "refused"), H("hload", "Dates", "accepted", "refused"), H("hload", "Accounts", "end"), H("hload", "Prices", "end"), H("hload", "Implied", "end"), H("hload", "Gaps", "end"), H("hload", "Tails", "refused", "accepted"), H("hload", "Includes", "end"), H("hload", "Long", "end")]))

P.append(dict(id="C15", title="Any text is refused with an error or read to its end",
  statement="Whatever stands in a ledger file, loading it ends, without a crash, either with an error or with a book that balances, whose dates the calendar has, and which holds everything after the odd text; nothing is dropped in silence. A missing file, or files that include each other, are refused with an error.",
  quant="all texts within the bounds in every position of a ledger",
  why="The space of malformed ledgers is unbounded; tests load none.",
  files=["loader/parser.go", "loader/lexer.go", "cmd/app/app.go", "book/builder.go"],
  mech=[("parser and scanner errors", "loader/parser.go, loader/lexer.go"), ("loading", "cmd/app/app.go LoadBook")],
  explain="A few arbitrary characters (bytes of every class the scanner tells apart) are put in every position of a ledger and loaded by the real code, which must not crash, and the book checked for what follows them; arbitrary texts of digits, points, commas and signs must be read as the number they are or refused.",
  outside=["more than three (quick) or four (thorough) arbitrary characters at once", "bytes other than those of the harness's alphabet"],
  harnesses=[H("hload", "AnyText", "accepted", "refused"), H("hload", "Written", "accepted", "refused"), H("hload", "Incomplete", "end"), H("hload", "BadFiles", "end"), H("hload", "Dates", "accepted", "refused")]))

P.append(dict(id="C13", title="An exported ledger reads back as the same book",
  statement="Exporting a book in ledger format and loading the result gives the same book: the same transactions, dates, payees, notes, accounts and currencies, whatever characters their names have, and the same amounts and prices exactly, however large or small, provided they have a finite decimal expansion. What is exported does not depend on the language of the user nor on chance, and operations are applied before it. The CSV export has one row for every posting, with its texts and its exact amount.",
  quant="all digits, name characters, transaction orders and languages within the bounds",
  why="Tests export nothing; names with quotes, semicolons or spaces and amounts with many digits are where formats lose information.",
  files=["cmd/export/ledger.go", "cmd/export/csv.go", "cmd/export/main.go", "cmd/app/print.go", "cmd/app/app.go", "loader/parser.go", "loader/lexer.go"],
  mech=[("writing payees, currencies and amounts", "cmd/export/ledger.go LedgerFormatPayee, ShowLedger"), ("exact amounts", "cmd/app/print.go FormatExact, FormatDecimal"), ("table", "cmd/export/csv.go")],
  explain="Ledger files with symbolic characters in every field are loaded, run through the real export command, written to a modelled file and loaded again by the real parser; the two books are compared posting by posting.",
  outside=["amounts without a finite decimal expansion, such as thirds, which the ledger format cannot hold", "names longer than three characters", "operations other than those in the harness"],
  harnesses=[H("hexp", "Names", "accepted", "refused"), H("hexp", "Numbers", "end"), H("hexp", "Books", "end"), H("hexp", "Ops", "end"), H("hexp", "Languages", "end"), H("hexp", "Stable", "end"), H("hexp", "CSV", "end"), H("hexp", "Many", "end")]))

P.append(dict(id="C16", title="Registers, reports and lists show exactly what they are asked for",
  statement="The register command shows, for each matching account on its own or for all together, exactly the entries from the begin date up to but not including the as-of date, the first or last so many of them, in ascending or descending order, after the operations, splits and conversions asked for. The report command shows every amount of its transactions in the row of its account and the column of its date, or refuses to; the account command lists exactly the accounts which match and have a balance in some currency (or all), and the currency command every currency with the decimals its amounts need. Options which are no dates or regular expressions are refused with an error, and colours change nothing but colours.",
  quant="all amounts, combinations of options, regular expressions and dates within the bounds",
  why="Tests run no command.",
  files=["cmd/register/register.go", "cmd/register/show_register.go", "cmd/reports/report.go", "cmd/reports/text.go", "cmd/accounts/accounts.go", "cmd/currencies/currencies.go", "book/registry.go", "book/book.go"],
  mech=[("selection and order of entries", "cmd/register/show_register.go ShowReport, book/registry.go FilterByDate"), ("rows and columns of a report", "cmd/reports/text.go ShowTransactions"), ("accounts with a balance", "book/book.go Accounts")],
  explain="Ledger files with symbolic amounts are given to the real commands with flags parsed by the real command line parser, and their text and CSV output compared with an independent selection from the book.",
  outside=["ledgers of more than three transactions, other than the long ones of the harness", "regular expressions, dates and options other than those in the harness", "output through a pager and shrinking to the width of a terminal", "the order within a register and the sums of a report, which C12 and C10 decide"],
  harnesses=[H("hcmd", "Registers", "end"), H("hcmd", "Ops", "end"), H("hcmd", "Odd", "end"), H("hcmd", "Colours", "end"), H("hcmd", "Refusals", "accepted", "refused"), H("hcmd", "Accts", "end"), H("hcmd", "Reports", "shown", "refused"), H("hcmd", "Ccys", "end"), H("hcmd", "Many", "end")]))

P.append(dict(id="C24", title="Operations are applied or refused, and macros are their operations",
  statement="Every text given as an operation is either an operation, and is applied, or is refused with an error which leaves the book as it is; none crashes, whatever regular expression, factor, number of months, date or period it has. A macro does exactly what the operations it lists do one after the other, other macros included, and one which uses itself, directly or through others, is refused.",
  quant="all operation texts and macros within the bounds",
  why="No test applies an operation or a macro.",
  files=["cmd/app/book_op.go", "book/book_utils.go", "book/book.go"],
  mech=[("recognition of operations and their arguments, macros", "cmd/app/book_op.go bookOp")],
  explain="Operations with arbitrary characters in each argument, and all macros of two operations which may use each other, are given to the real dispatcher on a book with symbolic amounts; acceptance is compared with the documented form, the book with what the operation means, and the result of a macro with that of its operations.",
  outside=["more than two (quick) or three (thorough) arbitrary characters in an argument", "numbers of months above 22", "more than three macros of two operations, other than the long list of the harness"],
  harnesses=[H("hops", "Texts", "accepted", "refused"), H("hops", "Macros", "accepted", "refused"), H("hops", "Many", "end")]))

P.append(dict(id="C18", title="Amounts are shown with their exact value",
  statement="An amount of at most fifteen digits whose currency is shown with as many decimals as the amount has, is displayed exactly, in the separators of the user's language, with its sign and its currency; an amount with more decimals is rounded to the nearest. The decimals of a currency are those which the amounts of the ledger need, also after currencies are renamed into one another. Amounts written for files and tables are exact for every size and number of decimals and do not depend on the language.",
  quant="all digits, signs, decimals and languages within the bounds",
  why="Tests format no amounts.",
  files=["cmd/app/print.go", "book/builder.go", "book/book_utils.go"],
  mech=[("formatting", "cmd/app/print.go FormatNumber, FormatSymbol, FormatSimpleMoney, FormatMoney, FormatExact, FormatDecimal"), ("decimals of currencies", "book/builder.go Decimals, book/book_utils.go RegexCCY")],
  explain="The formatting functions are executed on amounts of symbolic digits, and the text they give compared with the digits, grouped independently.",
  outside=["amounts of more than fifteen digits on screen, which pass through doubles", "rounding of exact ties", "languages other than English, German, French and Dutch, which fall back to English"],
  harnesses=[H("hfmt", "Numbers", "end"), H("hfmt", "Rounded", "end"), H("hfmt", "Exact", "end"), H("hcmd", "Renamed", "end"), H("hcmd", "Ccys", "end")]))

P.append(dict(id="C19", title="Columns line up whatever their texts",
  statement="A text put in a column takes exactly the width of the column: it is filled with spaces on the side it is not aligned to, or cut after as many characters as fit, counting characters and not bytes, leaving out what does not print and keeping colours. So the columns of a table line up in every row, with every text in its own column, and joined columns too. On a terminal too narrow for a table its text columns which may shrink do so in proportion, and the lines fill it exactly.",
  quant="all texts of the bytes in the alphabet, widths and alignments within the bounds",
  why="Tests pad one coloured text.",
  files=["cmd/app/print.go"],
  mech=[("width and padding", "cmd/app/print.go Length, PadString"), ("tables", "cmd/app/print.go PrintColumns, Combine, ListLength, GetColumnMoney")],
  explain="Padding is executed on arbitrary short byte strings (letters, characters of two and three bytes, broken ones, escapes, tabs and control characters) and compared with an independent list of the characters seen; tables with symbolic texts and amounts are printed and every line compared.",
  outside=["texts of more than three (quick) or four (thorough) bytes", "characters which take two columns or none", "terminals narrower than 9 or wider than 30 (quick) or 36 (thorough)"],
  harnesses=[H("hfmt", "Padded", "end"), H("hfmt", "Columns", "end"), H("hfmt", "Lists", "end"), H("hfmt", "Terminal", "shrunk", "fits"), H("hfmt", "Many", "end")]))

P.append(dict(id="C20", title="Option values are what is written, or refused",
  statement="An option of the form type:key=value,key,... is read as it is written: the type before the colon, every parameter with its value (a key alone means true), and nothing left over from earlier; a parameter given twice is refused, one not given has its default, and the option as it is shown reads back the same. Numbers and flags are what they say or refused; a value out of a list is accepted in any case of letters and becomes the one of the list; any other is refused and changes nothing; a text given as a file is what the file holds, and a missing file is refused.",
  quant="all texts of the alphabets within the bounds",
  why="Tests try a handful of options.",
  files=["cmd/utils/cli_config.go", "cmd/utils/types.go", "cmd/utils/cli_file_or_str.go"],
  mech=[("parameters", "cmd/utils/cli_config.go Set, String, GetStringDefault, GetBoolDefault, GetIntDefault"), ("values out of a list", "cmd/utils/types.go Set"), ("texts in files", "cmd/utils/cli_file_or_str.go")],
  explain="The option types are executed on arbitrary texts of separators and letters and compared with an independent reading of the same text.",
  outside=["texts longer than the bound", "characters outside the alphabets", "files in JSON, whose decoder works by reflection"],
  harnesses=[H("hcli", "Config", "accepted", "refused"), H("hcli", "Shown", "end"), H("hcli", "Values", "accepted", "refused"), H("hcli", "Enums", "accepted", "refused"), H("hcli", "Texts", "file", "missing", "text")]))

P.append(dict(id="C17", title="Importing a table adds exactly its new rows",
  statement="Importing tables writes ledger text which is accepted as a ledger and holds, for every row the script adds, one transaction with the row's date, text, note, currency and exact amount, in the account asked for and balanced by the counter account; the fields of a table and the values of JSON reach the script as they are written, and the same way every time. With duplicates removed, exactly the rows whose date and text the ledger does not have yet are written: importing a table again after adding what was written gives nothing; what several files have in common is written once; with reclassification, the counter account is the one the text had most often with the same account, and otherwise nothing changes. Tables, formats and scripts which are wrong are refused and nothing of the table is written.",
  quant="all dates, texts, amounts, ledgers and options within the bounds",
  why="Tests import nothing; duplicates depend on how every text is written and read back.",
  files=["cmd/importer/import.go", "cmd/importer/import_op.go", "cmd/importer/starlark.go", "script/convert.go", "script/starlark.go", "book/book_dedup.go", "book/book_reclassify.go", "cmd/reports/ledger.go", "book/builder.go", "loader/parser.go"],
  mech=[("duplicates", "book/book_dedup.go RemoveDuplicatesOf"), ("counter accounts", "book/book_reclassify.go ReclassifyByAccount"), ("reading tables", "script/convert.go GetReadCSV"), ("files and options", "cmd/importer/import.go")],
  explain="Tables with symbolic characters, days and digits are given to the real import command, with its scripts run by the real interpreter, itself executed symbolically, and what it writes is loaded and compared with the rows; reimporting, ledgers which hold some of the rows and several files are checked the same way.",
  outside=["tables of more than three rows and texts longer than the bound, other than the long ones of the harness", "characters which are not valid UTF-8", "the measure of similarity of texts, except that equal texts are nearest"],
  harnesses=[H("himp", "Rows", "end"), H("himp", "Tables", "accepted", "refused"), H("himp", "Values", "end"), H("himp", "Again", "end"), H("himp", "Dedup", "end"), H("himp", "Files", "end"), H("himp", "Defs", "end"), H("himp", "Reclassify", "end"), H("himp", "Counter", "end"), H("himp", "Refused", "accepted", "refused"), H("himp", "Texts", "accepted", "refused"), H("himp", "JSON", "end"), H("himp", "Objects", "end"), H("himp", "NotJSON", "accepted", "refused"), H("himp", "Many", "end")]))

P.append(dict(id="C23", title="What a script adds is exact, and what it sees is the ledger",
  statement="A transaction which a script adds has exactly the amount given as a text, whole number or decimal, divided by its denominator, in both of its currencies if it has two, and balances, with its date and texts, and the note of the line on the posting of its account; one which is not complete (no date, amount, account, counter account or currency, a second posting with parts missing, a denominator of zero, no number, a date the calendar does not have) or which a ledger cannot hold is refused and not added. A script sees the dates, payees, notes, accounts, currencies, amounts and balances of the ledger, what it selects is what operations select, and it never changes the ledger duplicates are looked for in. What it prints are comments in what is written.",
  quant="all amounts, denominators, texts and ledgers within the bounds",
  why="Tests run no script.",
  files=["script/starlark.go", "script/convert.go", "script/book.go", "script/book_op.go", "cmd/generate/generate.go", "cmd/generate/starlark.go"],
  mech=[("adding", "script/starlark.go GetBuilderFunction, script/convert.go GetBigRat"), ("what a script sees", "script/book.go, script/book_op.go"), ("generating", "cmd/generate/generate.go")],
  explain="The function scripts add transactions with is executed on symbolic numbers and texts, and scripts over ledgers with symbolic dates and accounts run by the real interpreter, itself executed symbolically; the result is compared with the rational given, and with the operations on the real book.",
  outside=["decimals given as doubles beyond fifteen digits", "scripts other than those of the harness"],
  harnesses=[H("himp", "Amounts", "end"), H("himp", "Numbers", "accepted", "refused"), H("himp", "Missing", "accepted", "refused"), H("himp", "Generated", "end"), H("himp", "Incomplete", "accepted", "refused"), H("himp", "Selected", "end"), H("himp", "Unchanged", "end"), H("himp", "Mapped", "end"), H("himp", "Printed", "end"), H("himp", "Texts", "accepted", "refused")]))

P.append(dict(id="C25", title="A Beancount file holds the ledger, its accounts opened and closed as used",
  statement="The Beancount text which the export and report commands write holds every transaction with its date, payee, notes, accounts, exact amounts and currencies, and (export) every price exactly. Every account which is used is opened once, on the day it is first used, and it is closed once, after the day it is last used, exactly if nothing is left on it in any currency; no other account is opened.",
  quant="all dates, accounts, texts, amounts and prices within the bounds",
  why="No test writes Beancount; a missing opening or a rounded amount makes the file wrong without an error.",
  files=["cmd/export/beancount.go", "cmd/reports/beancount.go", "cmd/app/print.go", "book/book.go"],
  mech=[("export", "cmd/export/beancount.go ShowBeancount"), ("report", "cmd/reports/beancount.go ShowBeancount")],
  explain="Both commands are executed symbolically on ledgers with symbolic days, accounts, characters and digits; what they write is read back by a reader of the harness and compared with the book, exactly.",
  outside=["names which Beancount itself does not allow (it wants capital letters and no signs)", "accounts with letters outside ASCII"],
  harnesses=[H("hbean", "Books", "end"), H("hbean", "Uses", "end"), H("hbean", "Texts", "accepted", "refused"), H("hbean", "Amounts", "end"), H("hbean", "Many", "end")]))

P.append(dict(id="C26", title="JSON and HTML output is well formed and holds every value",
  statement="A report, a combined register and a list of accounts written as JSON are one value of JSON and a report written as HTML is one well formed page, whatever characters the ledger has. They hold every transaction, entry, posting and account which the book has, in order, with its dates, names and notes exactly and each amount and balance as the nearest double (JSON) or with the decimals of its currency (HTML); a posting of a page lies as deep as its account in the tree.",
  quant="all texts, amounts, accounts and operations within the bounds",
  why="No test writes JSON or HTML; an unescaped character breaks the readers of the output.",
  files=["cmd/app/print.go", "cmd/reports/html.go", "cmd/reports/report.go", "cmd/register/show_register.go", "cmd/accounts/accounts.go", "book/posting.go", "book/transaction.go", "book/registry.go", "book/date.go"],
  mech=[("JSON", "cmd/app/print.go PrintJSON and the MarshalJSON methods of package book"), ("HTML", "cmd/reports/html.go ShowHTMLTransactions")],
  explain="The commands are executed symbolically on ledgers with symbolic characters and digits; encoding/json is modelled, its tags and methods taken from the code, and the output is read back by that model and by a reader of pages in the harness and compared with the book.",
  outside=["the style of a page", "amounts of more than fifteen digits in JSON", "encoding/json itself, which is modelled (every run compares the model with the real one on sampled paths)"],
  harnesses=[H("hjson", "Names", "accepted", "refused"), H("hjson", "Amounts", "end"), H("hjson", "Registers", "end"), H("hjson", "Accounts", "end"), H("hjson", "Pages", "accepted", "refused"), H("hjson", "Trees", "end"), H("hjson", "Deep", "end"), H("hjson", "Many", "end")]))

P.append(dict(id="C21", title="State files are kept whole: read as saved, replaced at once or not at all",
  statement="What a download saves in its state file, compressed or not, is what the next run reads: every transaction, account, space, token and text exactly. Saving replaces the file as a whole: the file under its name is never changed in place, so that it is at every moment the complete old or the complete new one; if saving fails, wherever the disk is full, it reports an error, the old file stays as it was and nothing else is left behind. A file which is cut or damaged is refused and never taken for an empty one; only a file which does not exist is no data.",
  quant="all texts, amounts, places where a file is cut or changed, and sizes at which the disk is full, within the bounds",
  why="No test saves a state file; a file which is lost or cut in the middle of saving takes the whole history of transactions with it.",
  files=["cmd/utils/json.go", "cmd/download/monzo.go", "cmd/download/starling.go", "cmd/download/nordigen.go"],
  mech=[("save", "cmd/utils/json.go SaveToFile"), ("load", "cmd/utils/json.go LoadFromFile"), ("data", "the UnmarshalJSON and MarshalJSON methods of cmd/download")],
  explain="SaveToFile and LoadFromFile are executed symbolically on a model of a file system, in which a write fails at a symbolic byte and every change of the watched file other than its replacement by a rename is noted.",
  outside=["a loss of power (the model has no cache which loses what was written)", "two programs which save the same file at once", "the bytes of compressed data (compress/gzip is modelled: its frames are kept, the data are not compressed; every run compares the model with the real one on sampled paths)", "compressed files cut within their data"],
  harnesses=[H("hstate", "Monzo", "end"), H("hstate", "Banks", "nordigen", "starling"), H("hstate", "Full", "full", "saved"), H("hstate", "Damaged", "none", "read", "refused"), H("hstate", "Many", "end")]))

P.append(dict(id="C27", title="A download gets everything and loses nothing, whichever request fails",
  statement="A download from Monzo, Starling or Nordigen which succeeds leaves in the state file every transaction, item and payee the bank has in the time asked for, of every account and space, once, by its identity and with its latest data, next to everything which was stored before, also of accounts and spaces which are gone; pending transactions of Nordigen are not stored; accounts of many pages are fetched completely, whatever the times of their transactions; Starling is asked for everything since twenty days before the last change known, or since the account was created. If any request fails, in whichever way, the command fails and the file stays as it was, except that a token which was renewed is saved at once; every request shows the token, over https.",
  quant="the request which fails and how, identities, texts, seconds, what is stored and whether a token is due, within the bounds",
  why="No test downloads; what is lost is lost for good, because banks do not give old transactions again.",
  files=["cmd/download/monzo.go", "cmd/download/starling.go", "cmd/download/nordigen.go", "cmd/download/net.go", "cmd/utils/json.go"],
  mech=[("Monzo", "cmd/download/monzo.go Sync, GetAllTransactions, Token"), ("Starling", "cmd/download/starling.go Sync, syncFeed"), ("Nordigen", "cmd/download/nordigen.go Sync, Token, RefreshAccounts"), ("requests", "cmd/download/net.go")],
  explain="The real commands, with the real net/http client and oauth2 package above its transport, are executed symbolically against a bank in the harness, which answers with symbolic identities and times and lets a chosen request fail; the state file is read and compared with what the bank has.",
  outside=["answers with null in place of transactions or accounts", "a hundred or more Monzo transactions within one minute", "the first authorisation in a browser and the choice of a Nordigen institution (see not applicable)", "TLS and the transport of net/http", "the real speed of the clock: the model moves a second each time it is looked at"],
  harnesses=[H("hdown", "Monzo", "done", "failed"), H("hdown", "Pages", "done", "failed"), H("hdown", "Minutes", "done"), H("hdown", "Starling", "all", "failed", "since"), H("hdown", "Nordigen", "done", "failed")]))

P.append(dict(id="C28", title="Output which cannot be written in full is an error",
  statement="A command which writes a report, register, list, export, import or generated transactions fails (exit status other than zero) if any part of its output cannot be written, wherever in the output that happens, and succeeds if all of it is; what is written is the beginning of the whole output, which does not depend on the space there is.",
  quant="the place in the output at which writing fails, the command and type of output, amounts and texts within the bounds",
  why="An export to a full disk which succeeds is a ledger which ends early; no test lets a write fail.",
  files=["cmd/app/app.go", "cmd/app/print.go", "cmd/currencies/currencies.go", "cmd/export/export.go", "cmd/reports/report.go", "cmd/register/register.go", "cmd/importer/import.go", "cmd/generate/generate.go"],
  mech=[("writing", "cmd/app/print.go outputWriter, BookPrinter"), ("failing", "cmd/app/app.go LoadCommand PersistentPostRunE")],
  explain="The real root command with its real subcommands is executed symbolically on a ledger with symbolic amounts and texts, writing to a disk with a symbolic amount of space; every write is a place where it may fail, and the solver decides which places there are.",
  outside=["what scripts print with print", "what the pager does with its input", "commands shell, docs and help", "writes which fail once and not again"],
  harnesses=[H("hout", "Full", "done", "failed")]))

P.append(dict(id="C22", title="The first configuration counts, and a command does what it is asked or fails",
  statement="The configuration is the file GOLEDGER_CONF names, alone, or the first file there is of those in the user's configuration directory, home directory and working directory, in this order; the others are not looked at, and one which is malformed, is a directory, holds an unknown key or a value of another type or outside its list is an error and never passed over for another; no configuration which exists is changed; where there is none a starter file is written, and says what is used without it; if it cannot be written the command fails. A value in the configuration works as the same value on the command line does, and the command line counts before it; macros, imports and generators of the configuration are their operations and options. Whatever a command cannot do (a ledger which is missing or refused, an unknown command, flag or argument, an invalid expression) is an error, with nothing written to standard output.",
  quant="which files there are and what is wrong with them, options with two values each, operations of macros, bytes which fit, digits of amounts and days, within the bounds",
  why="Which file counts depends on every combination of files, and every option of every command has a configuration of its own; no test runs a command.",
  files=["cmd/config.go", "cmd/root.go", "cmd/app/app.go", "cmd/utils/types.go", "cmd/register/register.go", "cmd/reports/report.go", "cmd/export/export.go", "cmd/importer/import.go", "cmd/generate/generate.go", "cmd/accounts/accounts.go", "cmd/currencies/currencies.go"],
  mech=[("files", "cmd/config.go load"), ("commands", "cmd/root.go Execute"), ("options", "cmd/app/app.go LoadCommand and Add of every command")],
  explain="The whole program (cmd.Execute), with the real cobra and pflag, is executed symbolically on a modelled file system and environment, with symbolic choices of files, options and values; TOML is parsed by its library outside the encoding, with symbolic characters kept. Two runs, one configured and one with options, are compared byte by byte.",
  outside=["XDG_CONFIG_HOME and systems other than Linux", "templates of help texts", "the pager (see not applicable)", "standard output which cannot be written", "the texts of the usage shown with an error"],
  harnesses=[H("hconf", "Which", "used", "bad", "none"), H("hconf", "First", "end"), H("hconf", "Values", "configured register", "configured report", "configured export", "configured accts", "overridden register", "overridden report", "overridden export", "overridden accts"), H("hconf", "Macros", "applied register", "applied report", "applied export", "refused"), H("hconf", "Imports", "imported", "generated", "refused"), H("hconf", "Failures", "failed", "done")]))

NA.append(dict(id="C05", title="The rate of return makes the cash flows worth nothing",
  statement="The rate computed for dated cash flows is the one at which their present values add up to zero, or as near to it as the method promises.",
  quant="all dates and cash flows", why="Tests try six lists of cash flows.",
  files=["book/irr.go", "book/date.go"], mech=[("Newton's method on floating point numbers", "book/irr.go CalculateIRR")],
  reason="the rate is found by Newton's method on floating point numbers with powers of real exponents (math.Pow), up to ten thousand rounds; neither z3 nor cvc5 decides such terms, and no bound on the rounds within their reach says anything. No command uses it."))
NA.append(dict(id="C29", title="Requests to the web server do not affect one another",
  statement="The answer to a request is the one the same command line gives, whatever was asked before it or is asked at the same time.",
  over=["histories", "schedules"], quant="all sequences of requests", why="The package has no tests.",
  files=["cmd/web/web.go"], mech=[("options and output of a request", "cmd/web/web.go Execute")],
  reason="the package embeds files (static/*.js, static/*.css) which are not in the repository, so it cannot be built here, no command uses it, and nothing found in it could be replayed against the real code. (Executed symbolically all the same, it does break the property: the options of a request stay in force for the next ones.)"))
