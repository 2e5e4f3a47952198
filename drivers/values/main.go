// Command verifvalues drives the exported values of package coin (amounts, dates, postings of accounts) with
// operations read from standard input, one JSON object per line, and shows the result of each on standard output.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

type op struct {
	Op string `json:"op"`
	// amounts
	R    string `json:"r"`
	S    string `json:"s"`
	Dec  int    `json:"dec"`
	Text string `json:"text"`
	Num  string `json:"num"`
	Den  string `json:"den"`
	// dates
	Today string   `json:"today"`
	Texts []string `json:"texts"`
	// postings
	Day   int      `json:"day"`
	From  string   `json:"from"`
	To    string   `json:"to"`
	Ids   []int    `json:"ids"`
	Id    int      `json:"id"`
	Txn   int      `json:"txn"`
	Txns  []int    `json:"txns"`
	Accts []string `json:"accts"`
	Multi bool     `json:"multi"`
}

type result map[string]interface{}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	enc := json.NewEncoder(out)
	for in.Scan() {
		var o op
		if err := json.Unmarshal(in.Bytes(), &o); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		enc.Encode(perform(&o))
		out.Flush()
	}
}

func perform(o *op) (r result) {
	defer func() {
		if e := recover(); e != nil {
			r = result{"ok": false, "panic": fmt.Sprint(e)}
			if strings.HasPrefix(o.Op, "a-") {
				r["shown"] = shown()
			}
		}
	}()
	switch {
	case strings.HasPrefix(o.Op, "a-"):
		r = amountOp(o)
		r["shown"] = shown()
		return r
	case o.Op == "dates":
		return dates(o)
	case o.Op == "entries":
		return entries(o)
	}
	return postingOp(o)
}

// ---- amounts

var coms = map[int]*coin.Commodity{}
var regs = map[string]*coin.Amount{}
var order []string

func com(dec int) *coin.Commodity {
	if coms[dec] == nil {
		coms[dec] = &coin.Commodity{Id: "XYZ", Decimals: dec}
	}
	return coms[dec]
}

func set(r string, a *coin.Amount) {
	if regs[r] == nil {
		order = append(order, r)
	}
	regs[r] = a
}

func number(s string) *big.Int {
	i, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad number " + s)
	}
	return i
}

func number2(s string) int { return int(number(s).Int64()) }

func amountOp(o *op) result {
	got := 0
	text := ""
	switch o.Op {
	case "a-read":
		set(o.R, coin.MustParseAmount(o.Text, com(o.Dec)))
	case "a-frac":
		a := coin.NewAmountFrac(number(o.Num), number(o.Den), com(o.Dec))
		text = a.String()
		set(o.R, a)
	case "a-zero":
		set(o.R, coin.NewZeroAmount(com(o.Dec)))
	case "a-copy":
		set(o.R, regs[o.S].Copy())
	case "a-neg":
		set(o.R, regs[o.S].Negated())
	case "a-add":
		if err := regs[o.R].AddIn(regs[o.S]); err != nil {
			return result{"ok": false, "panic": err.Error()}
		}
	case "a-times":
		set(o.R, regs[o.Text].Times(regs[o.S]))
	case "a-cmp":
		got = regs[o.R].Cmp(regs[o.S])
	case "a-is":
		a, b := regs[o.R], regs[o.S]
		if a.IsLessThan(b) {
			got -= 1
		}
		if a.IsMoreThan(b) {
			got += 1
		}
		if a.IsEqual(b) != (got == 0) {
			got = 7
		}
	case "a-mag":
		got = regs[o.R].CmpMagnitude(regs[o.S])
	case "a-magis":
		a, b := regs[o.R], regs[o.S]
		if a.IsSmaller(b) {
			got -= 1
		}
		if a.IsBigger(b) {
			got += 1
		}
	case "a-iszero":
		if regs[o.R].IsZero() {
			got = 1
		}
	default:
		panic("unknown operation " + o.Op)
	}
	return result{"ok": true, "got": got, "text": text}
}

func shown() (all []result) {
	all = []result{}
	for _, r := range order {
		a := regs[r]
		all = append(all, result{"r": r, "text": a.String()})
		all = append(all, result{"r": r, "text": fmt.Sprintf("%a", a)})
		all = append(all, result{"r": r, "text": strings.TrimSpace(fmt.Sprintf("%40.*f", a.Commodity.Decimals, a))})
		var s string
		if b, err := json.Marshal(a); err == nil && json.Unmarshal(b, &s) == nil {
			s = strings.TrimSuffix(s, " XYZ")
		}
		all = append(all, result{"r": r, "text": s})
		var b strings.Builder
		a.Write(&b, false)
		all = append(all, result{"r": r, "text": strings.TrimSuffix(b.String(), " XYZ")})
		w := a.Width(a.Commodity.Decimals)
		all = append(all, result{"r": r, "text": fmt.Sprintf("%-*s", w, a.String())[:w]})
	}
	return all
}

// ---- dates

func dates(o *op) result {
	cases := []result{}
	coin.WithDate(o.Today, func() {
		for _, s := range o.Texts {
			c := result{"s": s, "ok": false, "out": ""}
			func() {
				defer func() {
					if e := recover(); e != nil {
						c["out"] = fmt.Sprint(e)
						c["panic"] = true
					}
				}()
				var d coin.Date
				if err := d.Set(s); err == nil {
					c["ok"], c["out"] = true, d.String()
				}
			}()
			cases = append(cases, c)
		}
	})
	return result{"ok": true, "cases": cases}
}

// entries reads a ledger of transactions with the given dates and shows the days they were posted on.
func entries(o *op) result {
	cases := []result{}
	coin.WithDate(o.Today, func() {
		for _, s := range o.Texts {
			coin.Transactions, coin.Prices = nil, nil
			coin.Commodities["X"], coin.Commodities["Y"] = com(0), com(2)
			delete(coin.AccountsByName, "A")
			coin.Load(strings.NewReader(s+" entry\n  A\n  B\n\nP "+s+" X 1 Y\n\naccount A\n  closed "+s+"\n"), "")
			c := result{"s": s, "ok": true, "out": ""}
			if len(coin.Transactions) == 1 && len(coin.Prices) == 1 && coin.AccountsByName["A"] != nil {
				t, p, x := coin.Transactions[0].Posted, coin.Prices[0].Time, coin.AccountsByName["A"].Closed
				c["out"] = t.Format(coin.DateFormat)
				if !t.Equal(p) || !t.Equal(x) {
					c["out"] = fmt.Sprint("transaction on ", t, " price on ", p, " account closed on ", x)
				}
			}
			cases = append(cases, c)
		}
	})
	return result{"ok": true, "cases": cases}
}

// ---- postings

var accts = map[string]*coin.Account{}
var postings = map[int]*coin.Posting{}
var ids = map[*coin.Posting]int{}
var txns = map[int]*coin.Transaction{}
var acctOrder []string

func acct(n string) *coin.Account {
	if accts[n] == nil {
		accts[n] = &coin.Account{Name: n, FullName: n, Commodity: com(0), CommodityId: "XYZ"}
		acctOrder = append(acctOrder, n)
	}
	return accts[n]
}

func postingOp(o *op) result {
	switch o.Op {
	case "p-post": // transaction Txn of day Day posts between From and To
		t := txns[o.Txn]
		if t == nil {
			t = &coin.Transaction{Posted: time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC).AddDate(0, 0, o.Day)}
			txns[o.Txn] = t
		}
		have := map[*coin.Posting]bool{}
		for _, p := range t.Postings {
			have[p] = true
		}
		one := coin.MustParseAmount("1", com(0))
		if o.Multi {
			t.PostConversion(acct(o.From), one, nil, acct(o.To), coin.MustParseAmount("-2", com(0)), nil)
		} else {
			t.Post(acct(o.From), acct(o.To), one, nil)
		}
		k := 0
		for _, p := range t.Postings {
			if !have[p] {
				// the first id is of the posting to From
				id := o.Ids[0]
				if p.Quantity.Sign() < 0 {
					id = o.Ids[1]
				}
				postings[id], ids[p] = p, id
				k++
			}
		}
		if k != 2 {
			return result{"ok": false, "panic": "post did not add two postings"}
		}
	case "p-load": // a ledger whose transactions are described, and postings noted, by their numbers
		coin.Load(strings.NewReader(o.Text), "")
		coin.ResolveAll()
		for _, n := range o.Accts {
			accts[n] = coin.AccountsByName[n]
			acctOrder = append(acctOrder, n)
		}
		for _, t := range coin.Transactions {
			txns[number2(t.Description)] = t
			for _, p := range t.Postings {
				id := number2(p.Notes[0])
				postings[id], ids[p] = p, id
			}
		}
	case "p-move":
		postings[o.Id].MoveTo(acct(o.To))
	case "p-drop": // drops the transactions Txns
		coin.Transactions = nil
		for _, i := range o.Txns {
			coin.Transactions = append(coin.Transactions, txns[i])
			delete(txns, i)
		}
		coin.DropTransactions()
	default:
		panic("unknown operation " + o.Op)
	}
	lists := map[string][]int{}
	for _, n := range acctOrder {
		lists[n] = []int{}
		for _, p := range accts[n].Postings {
			id, known := ids[p]
			if !known {
				id = -1
			}
			lists[n] = append(lists[n], id)
		}
	}
	return result{"ok": true, "lists": lists}
}
