#!/usr/bin/env python3
"""Writes known-findings.json: defects of mkobetic/coin found while building the checks."""
import json, os
FIXED = """
C06 cc8f395 an abbreviation matching several accounts of which one is merely a text prefix of the others (Asset, Assets) resolved to that one instead of failing
C16 be6abb9 without transactions.coin, prices.coin was read a second time among the transaction files and every price counted twice
C10 e08936b converting an amount kept the decimals of the source commodity, so totals across commodities of different precision were wrong by powers of ten
C10 e56aeb0 the chain of prices taken depended on map iteration order, so the same balance could differ from run to run (also C18)
C11 9ba7b82 digits beyond the decimals of a negative amount were floored instead of dropped
C14 b9d62e8 of two transactions on a date only the first was considered when looking for the duplicate of an imported one
C14 911de48 imported transactions with a time of day were dated or matched wrongly
C04 fd7f0e7 register -p '!RE' inverted the pattern only for the first account
C17 0755ce0 an inverted tag expression selected postings by any single tag not matching instead of the complement (also C03, C04)
C05 ceac027 aggregated registers skipped accounts, so figures did not add up to the selected postings
C05 235f43e totals of aggregated registers were computed in the wrong commodity
C05 d9dde54 aggregating by payee crashed on a transaction without description
C04 e09f573 register crashed on a transaction with a single posting
C09 b839999 modify changed only the first matching posting of a transaction
C09 7112c78 an added tag became part of the value of a preceding tag (also C17)
C17 ab3716e tag values of a single character were not read and values kept the terminating comma
C08 7e79a19 rewriting a file in place truncated it first, losing it when writing failed
C25 f223bbd trailing text on transaction and posting lines was ignored (also C01: amounts with misplaced characters)
C07 d161ca3 a blank note line ended the notes when the formatted output was read again
C25 8ebc225 trailing text on account, commodity and price lines was ignored
C16 7c8a7b2 a missing included file was silently ignored
C12 ed76944 days that do not exist rolled over into the next month
C12 9123f97 a date without year did not denote the closest day
C14 f2e8d0b ofx2coin -bmo lost an unterminated last line
C21 4ea334b gen2coin -wb balances did not start from zero
C13 6894494 rule patterns of a single character were not read
C13 3766eb2 -rules dumped rules without their drop marker and notes
C15 ff34868 -source dumped a source that could not be read back (also C13)
C22 d7581f3 GnuCash currencies without fraction were read with no decimals
C22 804228a gc2coin -y crashed on a book without prices or transactions
C19 998d90b transactions in different commodities were reported as duplicates (also C14)
C19 bf9e6bb amounts of different precision compared wrongly (also C11)
C23 5cf8aaf a test clause without end swallowed the rest of the file (also C25)
C25 3fc8419 an account's closed attribute without date was silently ignored
C25 6cb9e57 include lines were recognised anywhere in a line starting with include
C23 3406b6c a format -t test clause changed what later clauses saw
C23 f93ee0c coin test reported OK for files with failed tests, skipped tests after an unknown command and updated interrupted files at the wrong lines
C08 0f08959 rewritten files were renamed into place before their content was on the disk
C12 a601d18 the year of a date with four digits below 0100 was taken for one of two digits
C12 b01843e date offsets too large to represent gave arbitrary dates
C11 e5ef398 printing amounts of more than 50 digits ended the program with a panic
C11 1e71da1 a sign after the decimal point (.-224 in a CSV record) was read as if it were a digit
C13 6ccf58a ofx2coin crashed without a rules file, csv2coin without rules (also C14, C15)
C14 7e46c68 ofx2coin crashed on a statement without a list of transactions
C15 1b0cdab -fields without the optional fields at the end, as documented, was rejected
C15 afc6645 a record without account id was posted to an arbitrary account
C15 dc7e501 records with another number of fields than the skipped headers were rejected
C18 a2a839a -rules listed the ids of one account in random order
C22 e9ed37c dates with different time zones were ordered by the instant, so the written dates were out of order
C22 496dd76 an online_id without an account number crashed the conversion
C21 b85dcf1 a week or month starting on the last day of the range was left out
C21 af05a06 weekly dates were out of order when the days of the week were
C27 43302e6 the register of an account failed on a transaction without a posting of the opposite sign
C28 94733d1 the Cum.Total column of an aggregated register with sub-accounts showed the flow instead of the cumulative total
C27 b34a651 accounts whose last name is Root were dropped, and the page failed on their sub-accounts
C28 8f1908a aggregated views left out the first, partial, period and balances from before the start date
C27 7c4505e dates were shown a day off in time zones west of UTC
C28 a9c4ed4 a maximum of no columns made the aggregated views fail
C04 13f81fe register -f cut the current directory out of the names of files next to it (.2/transactions.coin for ../db2/transactions.coin)
C23 cafce18 a test file with a colon in its path was reported under another name, and the results of empty clauses could not be written
C21 78d0e3d in the morning (before noon UTC) the days up to today left out today
C16 707e2da a database directory with *, ? or [ in its name was read without its .coin and .prices files, includes failed there, and $ in it was expanded (also C01)
C26 caa7344 the declaration of an account named Unbalanced was replaced: its description, note and commodity were lost (also C24)
"""
fixed = ["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in FIXED.strip().splitlines()]
KNOWN = [dict(property="C22", status="known", what="gc2coin panics on a book without the commodity CAD (the default commodity is fixed)",
              match=["conversion of a book without CAD", "cannot find commodity CAD"])]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(dict(findings=KNOWN, fixed=fixed), open(os.path.join(here, "known-findings.json"), "w"), indent=1)
