package hk

import "github.com/mescanne/goledger/zzverif/v"

// ADate is a text which is a date as typed or, is being false, which is not.
func ADate() (s string, is bool) {
	good := []string{"2020", "29.2.2020", "20200229", "2020-2", "this month", "last_quarter", "next \tyear"}
	bad := []string{"2020-02-30", "2020-13", "31/04/2020", "2021.02.29", "2020-02-00", "this week", "last monthx",
		"this", "12", "-3", "20200", "2020-01-001", " 2020", "x2020-01-01", "thismonth", "last-month", "0", ""}
	k := v.Choice("date", len(good)+len(bad))
	if k < len(good) {
		return good[k], true
	}
	return bad[k-len(good)], false
}
