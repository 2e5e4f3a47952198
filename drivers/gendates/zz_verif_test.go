package main

// Runs the generators of recurring days on requests read from a file (VERIF_IN), one JSON object per
// line, and writes the days they give (VERIF_OUT).  Laid over cmd/gen2coin by the check of C21.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"
)

type verifRule struct {
	K        string `json:"k"`
	Count    int    `json:"count"`
	Interval int    `json:"interval"`
	Days     []int  `json:"days"`
}

type verifReq struct {
	Rule  verifRule `json:"rule"`
	B     []int     `json:"b"`
	E     []int     `json:"e"`
	Clock int       `json:"clock"` // seconds of the day of both
	Twice bool      `json:"twice"` // the generator is used for another range before
}

func verifDates(q verifReq) (ok bool, dates [][]int) {
	defer func() {
		if recover() != nil {
			ok, dates = false, nil
		}
	}()
	at := func(d []int) time.Time {
		return time.Date(d[0], time.Month(d[1]), d[2], 0, 0, q.Clock, 0, time.UTC)
	}
	var gen dateGen
	if q.Rule.K == "week" {
		var ds []time.Weekday
		for _, d := range q.Rule.Days {
			ds = append(ds, time.Weekday(d))
		}
		gen = weekly(q.Rule.Count, q.Rule.Interval, ds...)
	} else {
		gen = monthly(q.Rule.Count, q.Rule.Interval, q.Rule.Days...)
	}
	if q.Twice {
		gen(at(q.B).AddDate(0, 2, 3), at(q.E).AddDate(0, 5, 9))
	}
	dates = [][]int{}
	for _, t := range gen(at(q.B), at(q.E)) {
		y, m, d := t.Date()
		dates = append(dates, []int{y, int(m), d})
	}
	return true, dates
}

func Test_VerifDates(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	s := bufio.NewScanner(in)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		var q verifReq
		if err := json.Unmarshal(s.Bytes(), &q); err != nil {
			t.Fatal(err)
		}
		ok, dates := verifDates(q)
		js, _ := json.Marshal(map[string]interface{}{"ok": ok, "dates": dates})
		fmt.Fprintln(out, string(js))
	}
	if err := out.Close(); err != nil {
		t.Fatal(err)
	}
}
