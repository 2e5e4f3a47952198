#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "A ledger is accepted only when every transaction balances",
 "Loading a ledger succeeds only if, in every transaction whose postings all go to accounts of one commodity, the amounts (converted to that commodity where a posting states another one) sum to exactly zero or at most one amount is left out, and in every transaction across accounts of different commodities every amount is stated; any command over any other ledger fails with a non-zero exit status and prints no report. A left out amount becomes exactly the negated sum of the other amounts of its transaction, in the commodity of the accounts. Every posting goes to exactly one declared account, and an undeclared account or commodity is an error.",
 ["inputs"], "every set of declared commodities, accounts and prices and every sequence of transactions (any number of postings, signs, magnitudes, left out amounts, mixed commodities)",
 "The tests load a handful of small ledgers that all balance; rejection, three and more postings, cancelling errors across postings and the position of the left out amount are not sampled.",
 ["coin.go","transaction.go","posting.go","amount.go"], [("ResolveTransactions","coin.go"),("parseTransaction","transaction.go")],
 ["exit status and output of coin stats/balance/register on a scratch COINDB","coin2html JSON"],
 [("Transactions","all loaded transactions","transaction.go"),("Posting.Quantity","amount, inferred when left out","posting.go")])

prop("C02", "Running balances are exact and failed balance assertions are reported",
 "After a load the postings of an account are in date order (postings of one date in the order in which they were read), and the balance of a posting without assertion is the exact sum of the account's posting amounts up to and including it. A posting with an asserted balance keeps the asserted value as its balance and is marked as asserted; if that value differs from the account's exact running sum, a warning naming the account, the date, the running sum and the asserted value goes to standard error, exactly one per failed assertion, and no warning is given for an assertion that holds. A failed assertion changes no amount, no other balance and no report.",
 ["inputs","histories"], "every ledger and every order of its transactions within and across files, assertions true or false at any position, stated in the account's commodity",
 "Existing tests check a few dates in order; out-of-order input, many postings on one date and wrong assertions in the middle of an account are not covered.",
 ["account.go","coin.go","posting.go"], [("CheckPostings/addPosting/sortPostings","account.go")],
 ["coin2html JSON (balance, balance_asserted)","standard error of any loading command"],
 [("Account.Postings","postings of the account in order","account.go"),("Posting.Balance","account balance as of the posting","posting.go")])

prop("C03", "The balance report adds up over the account tree",
 "`coin balance` prints, for the selected account (default: the root) and each account under it, the exact sum of its own selected postings and the cumulative sum, which is that sum plus the cumulative sums of all its direct sub-accounts each converted to its commodity; postings are selected by -b (on or after), -e (strictly before), -p (payee, case-insensitive regular expression) and -t (tag expression, see C17), all of which must hold. Parents are printed before their sub-accounts and siblings in name order; -l hides accounts deeper than the level without leaving them out of the cumulative sums, and an account with zero cumulative sum is printed only with -z. Each printed row shows the account's full name and its commodity.",
 ["inputs","configurations"], "every loaded ledger, account selection and combination of options",
 "tests/cmd/balance samples a few fixed ledgers and options; the arithmetic has to hold for every tree shape, date range and filter combination.",
 ["cmd/coin/balance.go","cmd/coin/utils.go","account.go"], [("cmdBalance.execute/trim","cmd/coin/balance.go"),("trim","cmd/coin/utils.go")],
 ["standard output of coin balance"])

prop("C04", "The register lists exactly the selected postings with running totals",
 "`coin register ACCOUNT` without aggregation prints a header with the account's full name and commodity and then one line for each posting of the account (with -r also of all accounts under it) selected by -b (on or after), -e (strictly before), -p and -t (a leading ! selects exactly the postings that the expression without it does not), in date order, postings of one date keeping the account's order (with -r: accounts in tree order, parents before children and siblings by name). Each line shows the date, the description, the name of the account of the first other posting of the transaction (relative to the listed account), with -r also its own account, the amount, the exact total of the amounts up to that line in the listed account's commodity, and * exactly if the posting has a balance assertion. With -n each line is followed by the posting's notes and then the transaction's notes, and with -f it ends with the file and line of the transaction.",
 ["inputs","configurations"], "every loaded ledger, account and combination of the non-aggregating options",
 "tests/cmd/register covers a few option combinations on one small ledger.",
 ["cmd/coin/register.go","cmd/coin/postings.go","cmd/coin/utils.go"], [("fullRegister/trim","cmd/coin/register.go"),("postings.print/printLong/totals","cmd/coin/postings.go")],
 ["standard output of coin register"])

prop("C05", "Aggregated register totals account for every selected posting",
 "With -w, -m, -q or -y and/or -bp or -bt, `coin register ACCOUNT` prints one row for each period (weeks start on Sunday; labelled by its first day, month or year) and/or category (payee; or the sorted tags of the posting and its transaction, <no-tags> if none) that has a posting selected (as in C04) in the account's subtree, and each figure is the exact sum of the amounts of the postings selected for that row and column, in the commodity of the column's account. Columns are the -g accounts of the subtree with the largest absolute total (ties by full name), in that order, over accounts with selected postings in them or under them, followed by a column Other, if any are left, with the sum of all the remaining ones in the commodity of ACCOUNT; so without -r the figures of a row add up to all the postings selected for it, and with -r each column includes the accounts under it. -c replaces each figure with the sum of the figures of its column up to that row, and text, csv and json outputs show the same rows and figures.",
 ["inputs","configurations"], "every loaded ledger, account, period, category, number of top accounts and output format",
 "cmd/coin/totals_test.go merges a few hand written time lines; tests/cmd/register uses one ledger.",
 ["cmd/coin/totals.go","cmd/coin/register.go"], [("aggregatedRegister","cmd/coin/register.go"),("mergeTotals/top/makeCumulative/rows","cmd/coin/totals.go")],
 ["standard output of coin register (text, csv, json)"])

prop("C06", "Account expressions resolve to the one account they mean, or fail",
 "Wherever an account is named (transaction entries, command arguments, rules files), a full account name always denotes exactly that account. Otherwise the expression denotes the only account whose full name it matches (case-insensitively and anywhere in the name, where a single : stands for one level boundary with any text around it and :: for any text), or, if several match, the one of them that is an ancestor of all the others; if there is no such account the command fails with a non-zero exit status instead of picking one. The outcome does not depend on the order in which accounts are declared.",
 ["inputs"], "every set of account names (including names that are prefixes of one another) and every expression",
 "coin_test.go checks a dozen expressions against one account tree.",
 ["coin.go","account.go"], [("MustFindAccount/ToRegex/FindAccounts","coin.go")],
 ["coin register EXPR header","coin2html JSON (posting accounts)","exit status"])

prop("C07", "Formatting preserves the transactions and is stable",
 "`coin format` of a file of transactions prints every transaction of the file exactly once, ordered by date, on the same date those without balance assertions before those with them and otherwise in file order; each keeps its date, code, description, postings in order with their full account names, amounts (the left out one filled in) and asserted balances, all tags, and the text of its notes in order (up to leading blanks). Reading the output gives the same transactions again, and formatting the output reproduces it byte for byte (up to leading blanks of notes). -t only trims and collapses whitespace in descriptions and transaction notes, and -i leaves in each file exactly what would have been printed for that file alone, and -ledger adds nothing but quotes around commodity ids.",
 ["inputs","histories"], "every file of valid transactions and every combination of the options",
 "tests/cmd/fmt formats a few samples once; stability and preservation over arbitrary notes, widths, omitted amounts and assertions are not checked.",
 ["cmd/coin/format.go","transaction.go","posting.go"], [("Transaction.Write","transaction.go"),("Posting.Write","posting.go"),("Less","transaction.go")],
 ["output of coin format","files rewritten by coin format -i"])

prop("C08", "Rewriting a file in place never loses it",
 "While `coin format -i`, `coin modify` or `coin test` (updating empty results) rewrite a file, at every moment the path holds either the complete original or the complete new content, on the disk as well, so a crash of the program or the machine at any point loses neither. If the new content cannot be completely written (full disk, size limit, unwritable directory) or the input cannot be processed, the command fails with a non-zero exit status and the file is left exactly as it was. Only the named files change, and nothing left behind by a crash is read as part of the ledger.",
 ["crash_points","fault_sequences"], "every point at which the process may die and every write that may fail, for each of the commands and every number of files",
 "The tests never rewrite files (they run format and modify in their no-file mode), never crash and never fail a write.",
 ["cmd/coin/format.go","cmd/coin/modify.go","cmd/coin/test.go"], [("temp file + rename","cmd/coin/format.go, modify.go, test.go")],
 ["directory events and file content while the commands run","exit status and file content under a write limit"])

prop("C09", "Modify changes exactly what was asked and nothing else",
 "`coin modify` selects the transactions that satisfy all of the given -p and -tt conditions, moves exactly the postings of the selected transactions that are in the -a account or match the -pt tag expression to the account given by -a:, adds the -pt: tags to exactly those postings and the -tt: tags to exactly the selected transactions (with -a: those that have a posting in that account); postings keep their amounts, so every account other than the two named keeps its postings and the sum over all accounts is unchanged. Added tags are read back from the rewritten file along with every tag that was there before, and everything else about every transaction is preserved as by C07. The reported number of updated transactions is the number changed, and the files stay loadable.",
 ["inputs","configurations"], "every file of valid transactions and every combination of filters and changes",
 "tests/cmd/modify has a few fixed examples; postings that match twice, several postings of one account in a transaction and existing notes and tags are not sampled.",
 ["cmd/coin/modify.go","posting.go","tags.go"], [("modify/modifyPosting/addTagLine","cmd/coin/modify.go"),("MoveTo","posting.go")],
 ["files before and after coin modify","its report on standard error"])

prop("C10", "Amounts are converted with the latest known prices or not at all",
 "Adding an amount to a total in another commodity uses the price with the latest date of that commodity in the total's commodity; without one it goes through a chain of latest prices of intermediate commodities leading to the total's commodity. Each step multiplies exactly and then drops the digits beyond the decimals of the target commodity (towards zero), the same chain is used every time the same ledger is loaded, and prices take effect regardless of the order or the files they are read in. If no chain exists the command fails with a non-zero exit status and no total is shown.",
 ["inputs","configurations"], "every price graph (several currencies, cycles, dead ends, dates in any order), amounts of either sign and commodities with any number of decimals",
 "commodity_test.go converts a few amounts over one price graph.",
 ["commodity.go","amount.go","coin.go","price.go"], [("convert","commodity.go"),("ResolvePrices","coin.go"),("Times/AddIn","amount.go")],
 ["coin balance/register over multi commodity trees","coin commodities -p"])

prop("C11", "Amounts are kept exactly in the precision of their commodity",
 "An amount read from any source becomes the stated decimal value with the digits beyond the commodity's decimals dropped (towards zero, for either sign) or is rejected if it cannot be represented; it is never rounded otherwise, wrapped around or scaled. Sums, differences, negations and comparisons of amounts of one commodity are exact whatever their size, and an amount is always printed with exactly the commodity's number of decimals such that reading it again yields the same amount.",
 ["inputs"], "every decimal numeral (any number of digits before and after the point, either sign, leading zeros) and commodities with 0 to 12 decimals",
 "amount_test.go has a few literals with two or three decimals.",
 ["amount.go","pow10.go","commodity.go"], [("parseAmount/NewAmountFrac/Format","amount.go"),("bigPow10/bigLog10","pow10.go")],
 ["coin format, coin balance, coin register outputs for ledgers with such amounts"])

prop("C12", "Dates mean what the documentation says and impossible ones are rejected",
 "A date given in full denotes that day; two digit years denote the year closest to today's with those last digits; a date without year denotes the day with that month and day in last, this or next year that is closest to today; YYYY and YYYY/M denote the first day of the year or month; and a suffix +N or -N with d, w, m or y moves the date by that many days, weeks, months or years (months and years by calendar arithmetic, a day beyond the end of the month spilling over into the next one), from today if it stands alone. Anything else, including a day that does not exist in its month, is an error. The same rules hold for ledger entries and command options, and a valid absolute date is always printed back as the same day in the form YYYY/MM/DD.",
 ["inputs","configurations"], "every date expression and every today (leap years, month ends, century ends, year boundaries)",
 "date_test.go samples some thirty expressions on a few spoofed days.",
 ["date.go"], [("parseDate/closestYear/Date.Set","date.go")],
 ["coin.Date.Set and ledger parsing with today spoofed through the exported API","coin format output"])

prop("C13", "Import rules: the first matching rule of the account decides",
 "When importing, the rules of the account with the given id are tried in file order, a reference to a rule group standing for all the rules of that group at that place, and the first whose regular expression is found in the description decides the counter account and the notes added; a rule with -- drops the transaction, a rule without expression matches every description, and if no rule matches the counter account is Unbalanced. Each rule applies only to its own account or the groups that reference it. Dumping loaded rules with -rules and loading the dump gives rules that decide every description in the same way.",
 ["inputs"], "every rules file (groups, nested references, notes, drop rules, catch-alls) and every description",
 "rules_test.go has two descriptions against one sample file.",
 ["rules.go"], [("ScanRules/RuleFor/Write","rules.go")],
 ["coin.ReadRules through the exported API","ofx2coin and csv2coin outputs"])

prop("C14", "OFX import is faithful and drops only duplicates",
 "`ofx2coin` prints, sorted by date, for every bank or credit card transaction in the files one balanced two-posting transaction with its calendar date, its description, and its exact amount posted to the account with the statement's id and the opposite amount to the counter account (see C13); the last transaction of a bank statement also asserts the statement balance. Without -keep-dupes a transaction is left out exactly if it equals (same date, code, and accounts and amounts posting by posting) one already in the ledger or one already kept from the import, in which case the kept import transaction takes over the asserted balance it lacks, and every omission is reported on standard error; with -keep-dupes nothing is left out. -bmo changes nothing but making files with the known malformed message set lines and missing blank lines readable.",
 ["inputs","histories"], "every set of statements, ledger content, repetition and overlap of imports, time of day and zone of the postings",
 "main_test.go converts one statement; duplicates, repeated imports and overlapping statements are not tested.",
 ["cmd/ofx2coin/main.go","cmd/ofx2coin/bmo.go","transaction.go"], [("main/newTransaction/readTransactions","cmd/ofx2coin/main.go"),("FindEqual/Day/MergeDuplicate","transaction.go"),("bmoReader","cmd/ofx2coin/bmo.go")],
 ["output of ofx2coin","re-import after adding the output to the ledger"])

prop("C15", "CSV import maps the columns as the source describes",
 "`csv2coin` turns every record after the skipped header lines into one transaction (except those dropped by a rule) whose date, description, note, amount, currency, symbol and quantity are the first non-empty value that the source's field definitions yield for that record: a column as is, a template filled with the groups of a regular expression found in the column, or a template of other fields, subject to its condition. Without symbol or quantity the amount goes to the account's (sub)account of the amount's commodity and its negation to the counter account's; with both, the quantity and the amount are posted with opposite signs, the amount's sign winning, each to the (sub)account of its commodity, and Unbalanced stands in where there is none. The output is sorted by date, records of one date in input order, and a record that cannot be converted fails the import with a non-zero exit status instead of being skipped or altered.",
 ["inputs","configurations"], "every source definition, record and account tree with sub-accounts by commodity",
 "main_test.go and rules_test.go convert eight records with two sources.",
 ["cmd/csv2coin/main.go","cmd/csv2coin/rules.go"], [("transactionFrom/findAccountForCommodity","cmd/csv2coin/main.go"),("Field.Value/ScanSource","cmd/csv2coin/rules.go")],
 ["output of csv2coin"])

prop("C16", "Reports do not depend on how the ledger is split into files",
 "For any ledger, moving its entries between files of the database directory (any number of .coin and .prices files, or single transactions.coin and prices.coin files) or behind include lines (relative to the including file, with wildcards and environment variables, nested) leaves every report unchanged, as long as the entries are still read in the same relative order. Every file of the database and every included file is read exactly once for each time it is named, at the place of the include. A missing included file without wildcards and a file that includes itself are errors.",
 ["configurations","inputs"], "every way of splitting and nesting the entries of a ledger over files",
 "Tests load single files; the multi-file database and includes have one fixture each.",
 ["coin.go","include.go"], [("LoadAll/LoadPrices/Load","coin.go"),("Include.Files","include.go")],
 ["outputs of coin balance/register/stats over differently split copies of the same ledger"])

prop("C17", "Tags are read from notes and selected exactly",
 "A note carries the tag #key for every # followed by letters, digits, _, - or /, with a value if the key is directly followed by a colon: the text up to the next comma or the end of the line without surrounding blanks; tags of a transaction come from its notes and tags of a posting from the posting's notes, a later occurrence of a key replacing an earlier one. A tag expression KEY[:VALUE] (case-insensitive regular expressions) selects a posting in balance and register if a tag of the posting or of its transaction has a matching key and, if given, a matching value of that same tag, and an expression starting with ! selects exactly the postings the rest does not. `coin tags` lists every tag key of the ledger once, sorted, with -v its distinct non-empty values sorted and with -a the accounts of the postings that carry it themselves or through their transaction.",
 ["inputs"], "every note text and every tag expression",
 "tags_test.go parses a few notes; selection is tested with one fixture.",
 ["tags.go","cmd/coin/tags.go","cmd/coin/balance.go","cmd/coin/register.go"], [("ParseTags/TagMatcher.Match","tags.go"),("collectKeys","cmd/coin/tags.go")],
 ["coin tags","coin balance -t, coin register -t","coin2html JSON (tags)"])

prop("C18", "The same ledger and command always give the same output",
 "Running the same reporting, listing, formatting or import command on the same files, with the same arguments and the same current date, always produces byte for byte the same standard output and the same exit status. In particular no order, choice of account, conversion path or tie depends on chance.",
 ["schedules","inputs"], "every ledger and command, over all iteration orders of internal maps",
 "Each test runs a command once; orders that vary between runs show up as rare flakes at best.",
 ["coin.go","commodity.go","cmd/coin/totals.go","cmd/coin/tags.go"], [("AccountsDo/CommoditiesDo","coin.go"),("Currencies","commodity.go"),("top","cmd/coin/totals.go")],
 ["standard output of repeated runs of every command"])

prop("C19", "Ledger statistics report every duplicate and unbalanced transaction",
 "`coin stats` counts the commodities, prices and accounts (including the implicit parents, Root and Unbalanced) loaded and the transactions in the range -b (on or after) to -e (strictly before). With -u it reports exactly the transactions of the range with a posting to Unbalanced, once for each such posting, with -c exactly those of two postings with opposite amounts in different commodities, and with -d exactly the pairs of transactions of the range with the same date and code and the same accounts and amounts posting by posting. Reported transactions come with their file and line.",
 ["inputs","configurations"], "every ledger and range, any number of equal transactions on one date",
 "tests/cmd/stats has one or two duplicates in a fixed file.",
 ["cmd/coin/stats.go","transaction.go"], [("execute/transactions","cmd/coin/stats.go"),("IsEqual","transaction.go")],
 ["standard output of coin stats"])

prop("C20", "The posting index of an account survives any history of changes",
 "After any sequence of posting, moving a posting to another account and dropping transactions, the postings listed for an account are exactly the postings whose account it is, each exactly once, in date order. Moving or dropping one posting leaves the relative order of the other postings of all accounts unchanged, and an added posting goes after the postings of the same date that are already there.",
 ["histories"], "every sequence of additions, moves and drops over any accounts and dates",
 "account_test.go adds and deletes a few postings in one fixed sequence.",
 ["account.go","posting.go","transaction.go"], [("addPosting/deletePosting/findPosting","account.go"),("MoveTo/drop","posting.go"),("DropTransactions","transaction.go")],
 ["Account.Postings through the exported API after each operation"],
 [("Account.Postings","sorted slice of postings","account.go")])

prop("C21", "Generated sample ledgers are valid and within the requested range",
 "For every range, `gen2coin` produces only transactions dated on or after -b and on or before -e, in date order, each with two postings to declared accounts that cancel out, and the directory output loads without errors and contains exactly the transactions in per-year files with -y, per-month files with -m (each named after the period of all of its transactions) or a single file otherwise. Recurring transactions fall only on the days their rule allows (week days, days of month counted from either end) in every interval-th week or month, in a period entirely within the range exactly as many times as the rule says, no day twice. With -wb each balance is the exact running sum of the account.",
 ["inputs","configurations"], "every range and random choice",
 "dates_test.go checks four rules over one range each; the output is never loaded.",
 ["cmd/gen2coin/dates.go","cmd/gen2coin/rule.go","cmd/gen2coin/main.go"], [("weekly/monthly","cmd/gen2coin/dates.go"),("generatePostings/amtBetween","cmd/gen2coin/rule.go"),("batchesByLabel","cmd/gen2coin/main.go")],
 ["output of gen2coin (stdout, JSON, directory)","coin stats over the directory"])

prop("C22", "GnuCash conversion preserves the books",
 "For a GnuCash book that has the commodity CAD, commodities and accounts named in the characters of coin (blanks in account names are dropped) and texts of one line, `gc2coin` writes every commodity (other than the template ones), account (with its place in the tree, commodity and description), price and transaction of the file exactly once, transactions and prices in date order, each split as a posting of its exact quantity (digits beyond the commodity's fraction dropped) to its account with its memo, a description up to its first ' - ' with the rest as a note, and dates as written in the file. The output loads without errors whenever the quantities fit 64 bits and the splits of every transaction within accounts of one commodity add up to zero, and every account has the same balance as the sum of its splits. With -y the same prices and transactions are in one file per year and none is lost.",
 ["inputs","configurations"], "every such GnuCash book (account trees in any order, fractions, several commodities and prices)",
 "gnucash_test.go decodes one small book and checks counts.",
 ["gnucash/gnucash.go","gnucash/account.go","gnucash/transaction.go","gnucash/split.go","gnucash/price.go","gnucash/commodity.go","cmd/gc2coin/main.go"], [("Resolve","gnucash/gnucash.go"),("main","cmd/gc2coin/main.go")],
 ["files written by gc2coin and coin reports over them"])

prop("C23", "The test runner tells passing from failing tests",
 "`coin test FILE` runs every test clause of the file and the files it includes, in order, and reports a clause as failed, with its location, command and difference, exactly if the output of its command over the loaded entries (as changed by the modify clauses before it) differs from the expected text; options of one clause never affect another. Per file it ends with OK exactly if none of its clauses failed and FAIL otherwise. A clause with an empty result does not fail but is filled in place with the actual output, leaving every other line of the file unchanged, after which it passes.",
 ["inputs","histories"], "every sequence of test clauses over any loaded entries, with right, wrong and empty results",
 "The test runner is used by the tests but never shown a failing or an empty clause.",
 ["cmd/coin/test.go","test.go"], [("execute/updateTestFile","cmd/coin/test.go"),("parseTest","test.go")],
 ["output of coin test and the file afterwards"])

prop("C24", "The HTML export contains the complete ledger",
 "The page written by `coin2html` embeds as JSON exactly the commodities, prices, accounts (with full name, commodity, parent and closing date) and transactions of the loaded ledger, transactions ordered as by C07, with each posting's account, exact amount, running balance and whether it was asserted, and with all notes, codes and tags, whatever characters they contain. The embedded blocks are always valid JSON that no content can break out of. Locations name the file and line of each entry.",
 ["inputs"], "every ledger, including descriptions and notes with quotes, markup and non-ASCII text",
 "There is no test of coin2html.",
 ["cmd/coin2html/main.go","transaction.go","posting.go","account.go","commodity.go","price.go","amount.go"], [("MarshalJSON methods","account.go, amount.go, commodity.go, posting.go, price.go, transaction.go"),("main","cmd/coin2html/main.go")],
 ["output of coin2html parsed as HTML/JSON"])

prop("C25", "A malformed ledger line is an error, never silently misread",
 "Every line of a ledger file is either an entry of one of the documented forms (comment, blank, include, account, commodity, price, transaction, posting, note, test, with optional trailing comment or note), read with all of its fields, or makes loading fail with a non-zero exit status; no part of a line that the format does not define is ignored. In particular an amount without commodity, with a misplaced sign or extra point, trailing text after an amount, balance or account, an unknown directive and a misspelled attribute are all rejected.",
 ["inputs"], "every line obtained by editing valid entries and every sequence of lines",
 "Parser tests feed valid samples only.",
 ["parser.go","transaction.go","account.go","commodity.go","price.go"], [("Parser.Next","parser.go"),("transactionREX/postingREX","transaction.go"),("accountHeadREX/accountBodyREX","account.go"),("commodityHeadREX/commodityBodyREX","commodity.go"),("priceREX","price.go")],
 ["exit status and coin2html JSON for files with mutated lines"])

prop("C26", "The account and commodity listings show the declared catalogue",
 "`coin accounts` lists exactly the declared accounts, their implicit parents, Root and Unbalanced whose full name matches the given expression, sorted by name with commodity and description, leaving out those that are closed or under a closed account unless -c is given. `coin commodities` lists exactly the declared commodities sorted by id with symbol and name, and marks those with a symbol whose quotes are not disabled. `coin commodities ID` lists every price of that commodity, per currency with the latest first, and -p prints for each commodity the latest price and number of prices in each currency.",
 ["inputs","configurations"], "every catalogue of accounts, commodities and prices",
 "tests/cmd/accounts has one fixture and commodities none.",
 ["cmd/coin/accounts.go","cmd/coin/commodities.go","account.go","commodity.go"], [("cmdAccounts.execute","cmd/coin/accounts.go"),("cmdCommodities.execute","cmd/coin/commodities.go"),("IsClosed","account.go")],
 ["standard output of coin accounts and coin commodities"])

prop("C27", "The viewer of the HTML export shows the true balances and postings of the account and dates selected",
 "In the page written by `coin2html`, opened in any time zone and after any sequence of its user's actions: the list offers every sub-account of the account it starts from, leaving out those closed by the end date (when the list was last made) unless Closed Accounts is ticked, and clicking, double clicking and the links of the title select what they name. Balances lists the selected account and its sub-accounts down to the chosen depth, each with its own balance on the end date and with its total, which adds the balances of all its sub-accounts that are shown (converted to its commodity, the parts below the depth included); the Balances chart has one box for each of them with the same figures. The full Register lists exactly the postings of the account, or with Sub-Accounts ticked of it and all its shown sub-accounts, from the start to the end date inclusive, each once and by date, with its date, description, other account, amount, balance (without sub-accounts), cumulative total of the amounts so far in the account's commodity and, as ticked, notes and location. Changing a control changes what it is for and nothing else (except that new dates also choose a fitting aggregation where there is one); no action makes the page fail.",
 ["inputs", "histories", "configurations"], "every ledger without assertions and with at most one price per pair of commodities, every sequence of user actions, every time zone",
 "The jest tests (not part of the build) cover only parsing of amounts and grouping.",
 ["cmd/coin2html/js/src/account.ts", "cmd/coin2html/js/src/commodity.ts", "cmd/coin2html/js/src/views.ts", "cmd/coin2html/js/src/viewsBalances.ts", "cmd/coin2html/js/src/viewsBalancesChart.ts", "cmd/coin2html/js/src/viewsRegister.ts", "cmd/coin2html/js/src/utils.ts", "cmd/coin2html/js/src/ui.ts", "cmd/coin2html/js/body.html"],
 [("Account.withAllChildBalances/withAllChildPostings/balanceAt", "cmd/coin2html/js/src/account.ts"), ("viewRegisterFull", "cmd/coin2html/js/src/viewsRegister.ts"), ("viewBalances", "cmd/coin2html/js/src/viewsBalances.ts"), ("updateView/updateAccount/updateAccounts", "cmd/coin2html/js/src/views.ts")],
 ["what the page shows, its scripts running on a model of the document"])

prop("C28", "The aggregated views of the viewer add up",
 "In the page written by `coin2html`, opened in any time zone and after any sequence of its user's actions, the aggregated Register and its chart have one row (or bar) for every week (starting on Sunday), month, quarter or year that has a day from the start to the end date. With Flows each figure is the sum of the account's postings within the period and the dates; with Balances it is the account's balance at the end of the period or at the end date if that is earlier, including what was before the start date. With Sub-Accounts there is a column for each shown account with postings, excluded accounts and everything below them left out; when they are more than the chosen maximum, the ones with the largest totals over the dates (the most negative for Liabilities and Income) have columns of their own and the rest is added up in Other; Total is the sum of all columns and Cum.Total (Income and Expenses) the running sum of the Total flows, in the account's commodity. Excluding an account and including it again restores the view. Clicking a figure or bar shows the details of exactly the postings behind it, the 20 largest of them if there are more, largest first. The chart shows the same figures as the table.",
 ["inputs", "histories", "configurations"], "every ledger without assertions and with at most one price per pair of commodities, every sequence of user actions, every time zone",
 "The jest tests (not part of the build) cover only grouping on a few examples.",
 ["cmd/coin2html/js/src/utils.ts", "cmd/coin2html/js/src/viewsRegister.ts", "cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts", "cmd/coin2html/js/src/views.ts", "cmd/coin2html/js/src/account.ts"],
 [("groupBy/groupWithSubAccounts/addIntoGroups", "cmd/coin2html/js/src/utils.ts"), ("viewRegisterAggregated/viewRegisterAggregatedWithSubAccounts/showDetails", "cmd/coin2html/js/src/viewsRegister.ts"), ("viewChart", "cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts")],
 ["what the page shows, its scripts running on a model of the document"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
