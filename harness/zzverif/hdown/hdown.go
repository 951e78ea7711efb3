// Package hdown: downloads into state files.
package hdown

import (
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/mescanne/goledger/cmd/download"
	"github.com/mescanne/goledger/cmd/utils"
	"github.com/mescanne/goledger/zzverif/v"
	"github.com/spf13/cobra"
)

// bank stands for the network: the bank and what may fail on the way.
type bank struct {
	answer func(r *http.Request, q url.Values) (int, string)
	n      int
	failAt int // request which fails
	how    int
	failed bool
	again  bool   // the failed request may be tried in another way
	key    string // what every request has to show
	keyed  bool
}

const ways = 7

func (b *bank) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.URL.Scheme != "https" || r.Method == "GET" && r.Header.Get("Authorization") != "Bearer "+b.key {
		b.keyed = false
	}
	if b.how == 6 && b.n == b.failAt && strings.Contains(r.URL.Path, "oauth2") {
		b.failAt = -1 // a token is a token
	}
	code, body := b.answer(r, r.URL.Query())
	if r.Body != nil {
		r.Body.Close()
	}
	if b.n == b.failAt && (code != 403 || b.how < 2) {
		b.failed = true
		switch b.how {
		case 0:
			b.n++
			return nil, errors.New("no route to host")
		case 1:
			code, body = 500, `{"message":"no"}`
		case 2:
			body = body[:len(body)-1]
		case 3:
			code, body = 403, `{}`
		case 4:
			body = ""
		case 5:
			code = 401
		case 6:
			code = 202
		}
	}
	b.n++
	return &http.Response{StatusCode: code, Status: strconv.Itoa(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: -1, Request: r}, nil
}

// up puts a bank on the network.
func up(key string, failAt, how int, answer func(r *http.Request, q url.Values) (int, string)) *bank {
	b := &bank{answer: answer, failAt: failAt, how: how, key: key, keyed: true}
	http.DefaultTransport = b
	return b
}

type adder interface{ Add(*cobra.Command) }

// sync runs a download.
func sync(d adder, file string) error {
	root := &cobra.Command{Use: "goledger"}
	d.Add(root)
	c := root.Commands()[0]
	return c.RunE(c, []string{file})
}

func monzo(file string) error {
	return sync(&download.MonzoDownload{ClientID: "id", ClientSecret: "secret"}, file)
}

// obj is what a state file holds, read without the program's types.
type obj = map[string]interface{}

func read(file string) (obj, bool) {
	o := obj{}
	if _, ok := v.GetFile(file); !ok {
		return o, false
	}
	return o, utils.LoadFromFile(file, &o) == nil
}

// at is a value within a value.
func at(x interface{}, path ...string) interface{} {
	for _, p := range path {
		m, ok := x.(obj)
		if !ok {
			return nil
		}
		x = m[p]
	}
	return x
}

func size(x interface{}) int {
	m, _ := x.(obj)
	return len(m)
}

// list is a list of JSON values.
func list(l []string) string { return "[" + strings.Join(l, ",") + "]" }

func txn(id, created, desc string) string {
	return `{"id":"` + id + `","created":"` + created + `","desc":"` + desc + `"}`
}

func tokens(expiry time.Time) string {
	return `{"access_token":"a","token_type":"Bearer","refresh_token":"r","expiry":"` + expiry.UTC().Format(time.RFC3339Nano) + `"}`
}

// Monzo: whichever request fails, the file keeps what it has; without a
// failure it has everything.
func Monzo() {
	v.MapOrder(1)
	file := "s.json"
	now := time.Now().UTC()
	day := func(n int) string { return now.AddDate(0, 0, -n).Format(time.RFC3339) }
	idA, idB := v.Str("id a", 1, 1, "tw"), v.Str("id b", 1, 1, "ux")
	desc := v.Str("text", 1, 1, "nm")
	failAt, how := v.Choice("request which fails", 8), v.Choice("how", ways)
	life := v.Choice("life of the token", 3)
	only := v.Bool("only the last 90 days without asking again")
	stored := v.Choice("stored", 2) == 1
	expiry := []time.Time{now.Add(time.Hour), now.Add(-time.Hour), now.Add(5 * time.Second)}[life]
	state := `{"token":` + tokens(expiry)
	if stored {
		state += `,"transactions":{"t":` + txn("t", day(400), "old") + `,"u":` + txn("u", day(300), "old") + `},"accounts":{"acc1":{"id":"acc1","x":"old"},"acc0":{"id":"acc0"}}`
	}
	v.PutFile(file, state+"}")
	before, _ := v.GetFile(file)
	key := "a"
	renewed, refreshed, turn := false, "r", -1
	v.Watch(file)
	var b *bank
	b = up(key, failAt, how, func(r *http.Request, q url.Values) (int, string) {
		switch r.URL.Host + r.URL.Path {
		case "api.monzo.com/oauth2/token":
			if b.failAt != b.n {
				renewed = true
				b.key = "new"
			} else {
				b.again = true // oauth2 has two ways to ask
			}
			// it may be renewed along with the token, or not
			if turn < 0 {
				turn = v.Choice("refresh token", 3)
			}
			switch turn {
			case 0:
				refreshed = "r2"
			case 1:
				return 200, `{"access_token":"new","token_type":"Bearer","expires_in":7200}`
			}
			return 200, `{"access_token":"new","token_type":"Bearer","refresh_token":"` + refreshed + `","expires_in":7200}`
		case "api.monzo.com/ping/whoami":
			if failAt == 7 && how == 0 {
				b.failed = true
				return 200, `{"authenticated":false,"client_id":"c","user_id":"u"}`
			}
			return 200, `{"authenticated":true,"client_id":"c","user_id":"u"}`
		case "api.monzo.com/accounts":
			return 200, `{"accounts":[{"id":"acc1","x":"new"},{"id":"acc2"}]}`
		case "api.monzo.com/transactions":
			if q.Get("since") == "" {
				// what is refused is asked again, for some days
				b.again = b.again || b.n == b.failAt && b.how == 3
				if only {
					return 403, `{}`
				}
			}
			switch q.Get("account_id") {
			case "acc1":
				return 200, `{"transactions":[` + txn(idA, day(20), desc) + `]}`
			case "acc2":
				return 200, `{"transactions":[` + txn(idB, day(10), "b") + `]}`
			}
			return 200, `{"transactions":[]}`
		}
		return 404, "{}"
	})
	err := monzo(file)
	touched := v.Touched()
	v.Assert(!touched, "the file is only ever a complete one")
	after, ok := read(file)
	v.Assert(ok && v.Files() == 1, "there is one file of data")
	if !ok {
		return
	}
	if life == 0 || renewed {
		want, refresh := "a", "r"
		if renewed {
			want, refresh = "new", refreshed
		}
		v.Assert(at(after, "token", "access_token") == want && at(after, "token", "refresh_token") == refresh, "the token which is good is kept")
	}
	trans := after["transactions"]
	if err != nil {
		v.Assert(b.failed, "nothing fails on its own")
		if !renewed {
			text, _ := v.GetFile(file)
			v.Assert(text == before, "a failed download changes nothing")
		}
		if stored {
			v.Assert(at(trans, "t", "id") == "t" && at(trans, "u", "id") == "u" && at(after, "accounts", "acc0", "id") == "acc0" && at(after, "accounts", "acc1", "id") == "acc1", "a failed download loses nothing")
		}
		v.Reach("failed")
		return
	}
	if b.failed {
		v.Assert(b.again, "a failure is not taken for data")
		v.Assert(b.n > failAt+1, "a failure is not taken for data")
	}
	want := map[string]string{}
	if stored {
		want["t"], want["u"] = "old", "old"
	}
	want[idA], want[idB] = desc, "b"
	v.Assert(size(trans) == len(want), "every transaction is stored once")
	for id, d := range want {
		v.Assert(at(trans, id, "id") == id, "every transaction is stored by its id")
		v.Assert(at(trans, id, "desc") == d, "a transaction has the latest data")
	}
	n := 2
	if stored {
		n = 3
	}
	v.Assert(size(after["accounts"]) == n && at(after, "accounts", "acc1", "x") == "new" && at(after, "accounts", "acc2", "id") == "acc2", "every account is stored")
	v.Assert(b.keyed, "every request shows the token")
	v.Reach("done")
}

// Pages: an account with many transactions is fetched completely, whatever
// the times of its transactions are and whichever way they are listed.
func Pages() {
	v.MapOrder(0)
	file := "s.json"
	now := time.Now().UTC()
	counts := []int{0, 1, 99, 100, 101, 140, 200, 201}
	n := counts[v.Choice("transactions", len(counts))]
	step := []int{1, 7, 60, 100000}[v.Choice("seconds between", 4)]
	down := v.Bool("latest first")
	only := v.Choice("only the last 90 days", 2) == 1
	frac := []string{"Z", ".999Z", ".5+01:00"}[v.Choice("form of times", v.Bound("forms of times", 2, 3))]
	failAt := []int{-1, 2, 3, 4, 5, 6}[v.Choice("request which fails", v.Bound("requests which fail", 3, 6))]
	if only && step > 10000 {
		step = 10000
	}
	// the last is an hour ago
	first := now.Add(-time.Hour - time.Duration(n*step)*time.Second).Truncate(time.Second)
	var all []string
	var times []time.Time
	for i := 0; i < n; i++ {
		t := first.Add(time.Duration(i*step) * time.Second)
		text := t.Format("2006-01-02T15:04:05")
		if strings.HasSuffix(frac, "+01:00") {
			text = t.Add(time.Hour).Format("2006-01-02T15:04:05")
		}
		c, err := time.Parse(time.RFC3339, text+frac)
		if err != nil {
			v.Assert(false, "the times are good")
			return
		}
		times = append(times, c)
		all = append(all, txn("t"+strconv.Itoa(i), text+frac, "d"))
	}
	v.PutFile(file, `{"token":`+tokens(now.Add(time.Hour))+`,"transactions":{"old":`+txn("old", "2000-01-01T00:00:00Z", "o")+`}}`)
	before, _ := v.GetFile(file)
	var b *bank
	b = up("a", failAt, 1, func(r *http.Request, q url.Values) (int, string) {
		if b.n > 40 {
			// asked again and again
			return 500, `{}`
		}
		switch r.URL.Host + r.URL.Path {
		case "api.monzo.com/ping/whoami":
			return 200, `{"authenticated":true,"client_id":"c","user_id":"u"}`
		case "api.monzo.com/accounts":
			return 200, `{"accounts":[{"id":"acc1"}]}`
		case "api.monzo.com/transactions":
			limit, err := strconv.Atoi(q.Get("limit"))
			if err != nil || limit < 1 || limit > 100 || q.Get("account_id") != "acc1" {
				return 400, `{}`
			}
			since := time.Time{}
			if s := q.Get("since"); s != "" {
				t, err := time.Parse(time.RFC3339, s)
				if err != nil {
					return 400, `{}`
				}
				since = t
			}
			if only && since.Before(now.AddDate(0, 0, -90)) {
				return 403, `{}`
			}
			var l []string
			for i, t := range times {
				if !t.Before(since) && len(l) < limit {
					l = append(l, all[i])
				}
			}
			if down {
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
			}
			return 200, `{"transactions":` + list(l) + `}`
		}
		return 404, "{}"
	})
	err := monzo(file)
	if err != nil {
		v.Assert(b.failed, "nothing fails on its own")
		text, _ := v.GetFile(file)
		v.Assert(text == before, "a failed download changes nothing")
		v.Reach("failed")
		return
	}
	v.Assert(!b.failed, "a failure is not taken for data")
	after, ok := read(file)
	v.Assert(ok, "the file is read")
	trans := after["transactions"]
	v.Assert(size(trans) == n+1 && at(trans, "old", "id") == "old", "every transaction is stored once")
	missing := 0
	for i := range all {
		if at(trans, "t"+strconv.Itoa(i), "created") == nil {
			missing++
		}
	}
	v.Assert(missing == 0, "no transaction is left out")
	v.Assert(b.keyed, "every request shows the token")
	v.Reach("done")
}

// Minutes: where a page ends within a minute makes no difference.
func Minutes() {
	v.MapOrder(0)
	file := "s.json"
	now := time.Now().UTC()
	n := 101 + v.Choice("transactions", v.Bound("transactions after a page", 2, 4))
	first := now.Add(-time.Hour - time.Duration(n)*time.Minute).Truncate(time.Minute)
	var all, secs []string
	for i := 0; i < n; i++ {
		s := "30"
		if i >= 98 && i <= 100 {
			s = v.Str("tens of seconds", 1, 1, "012345") + v.Str("seconds", 1, 1, "0123456789")
		}
		secs = append(secs, s)
		all = append(all, txn("t"+strconv.Itoa(i), first.Add(time.Duration(i)*time.Minute).Format("2006-01-02T15:04:")+s+"Z", "d"))
	}
	v.PutFile(file, `{"token":`+tokens(now.Add(time.Hour))+`}`)
	b := up("a", 99, 0, func(r *http.Request, q url.Values) (int, string) {
		switch r.URL.Host + r.URL.Path {
		case "api.monzo.com/ping/whoami":
			return 200, `{"authenticated":true,"client_id":"c","user_id":"u"}`
		case "api.monzo.com/accounts":
			return 200, `{"accounts":[{"id":"acc1"}]}`
		case "api.monzo.com/transactions":
			// times in this form are in order as texts
			since := q.Get("since")
			var l []string
			for i := range all {
				t := first.Add(time.Duration(i)*time.Minute).Format("2006-01-02T15:04:") + secs[i] + "Z"
				if t >= since && len(l) < 100 {
					l = append(l, all[i])
				}
			}
			return 200, `{"transactions":` + list(l) + `}`
		}
		return 404, "{}"
	})
	v.Assert(monzo(file) == nil && b.keyed, "nothing fails on its own")
	after, ok := read(file)
	v.Assert(ok && size(after["transactions"]) == n, "every transaction is stored once")
	v.Assert(at(after["transactions"], "t"+strconv.Itoa(n-1), "id") == "t"+strconv.Itoa(n-1), "no transaction is left out")
	v.Reach("done")
}

func feed(id, updated, desc string) string {
	return `{"feedItemUid":"` + id + `","transactionTime":"2020-01-01T00:00:00.000Z","updatedAt":"` + updated + `","desc":"` + desc + `"}`
}

// Starling: what changed since is fetched for every account and space, what
// is stored is kept.
func Starling() {
	v.MapOrder(1)
	file := "s.json"
	last := []string{"2024-03-10T10:20:", "2023-03-10T10:20:", "2024-01-05T10:20:"}
	since := []string{"2024-02-19T10:20:", "2023-02-18T10:20:", "2023-12-16T10:20:"}
	day := v.Choice("day of the last change", 3)
	tens := v.Str("tens of seconds of the last change", 1, 1, "012345")
	itemTens := v.Str("tens of seconds of a change", 1, 1, "012345")
	all := v.Bool("all data")
	stored := v.Choice("stored", 3) // nothing, items, items and an account which is gone
	young := v.Bool("young account")
	failAt, how := v.Choice("request which fails", 18), v.Choice("how", ways)
	v.Assume(failAt == 17 && how == 0 || failAt < 17 && day == 0 && !young && itemTens == "3")
	created := "2020-01-01T00:00:00.000Z"
	if young {
		created = since[day] + "30.000Z"
	}
	acct := func(id, cat string) string {
		return `{"accountUid":"` + id + `","defaultCategory":"` + cat + `","createdAt":"` + created + `"}`
	}
	recent := feed("t", last[day]+tens+"0.123Z", "old")
	if stored > 0 {
		s := `{"accounts":{"acc1":{"account":` + acct("acc1", "c1") + `,"feeditems":{"c1":{"t":` + recent + `,"u":` + feed("u", "2020-05-05T05:05:05.555Z", "old") + `},"g9":{"z":` + feed("z", "2020-05-05T05:05:05.555Z", "old") + `}},"spaces":{"savingsGoals":[{"savingsGoalUid":"g9","name":"N"}],"spendingSpaces":[]}}`
		if stored > 1 {
			s += `,"acc0":{"account":` + acct("acc0", "c0") + `}`
		}
		v.PutFile(file, s+`},"payees":[{"payeeUid":"p","n":"old"}]}`)
	}
	before, had := v.GetFile(file)
	items := []struct{ cat, id, at, desc string }{
		{"c1", "u", since[day] + itemTens + "0.123Z", "new"},
		{"c1", "w", last[day] + "59.999Z", "new"},
		{"c1", "x", "2020-03-03T03:03:03.333Z", "early"},
		{"g1", "y", "2020-03-03T03:03:03.333Z", "goal"},
		{"p1", "y", "2020-04-03T03:03:03.333Z", "space"},
		{"g2", "y", last[day] + "00.000Z", "goal 2"},
		{"p2", "y", last[day] + "00.000Z", "space 2"},
		{"c2", "u", last[day] + "00.000Z", "2"},
	}
	if young {
		items[2].at, items[3].at, items[4].at = last[day]+"00.000Z", created, created
	}
	b := up("tok", failAt, how, func(r *http.Request, q url.Values) (int, string) {
		p := strings.TrimPrefix(r.URL.Host+r.URL.Path, "api.starlingbank.com/api/v2/")
		switch p {
		case "accounts":
			return 200, `{"accounts":[` + acct("acc1", "c1") + "," + acct("acc2", "c2") + `]}`
		case "accounts/acc1/identifiers", "accounts/acc0/identifiers", "accounts/acc2/identifiers":
			return 200, `{"iban":"X"}`
		case "account/acc0/spaces", "account/acc2/spaces":
			return 200, `{"savingsGoals":[],"spendingSpaces":[]}`
		case "account/acc1/spaces":
			return 200, `{"savingsGoals":[{"savingsGoalUid":"g1","name":"G"},{"savingsGoalUid":"g2","name":"G"}],"spendingSpaces":[{"spaceUid":"p1","name":"P"},{"spaceUid":"p2","name":"P"}]}`
		case "payees":
			return 200, `{"payees":[{"payeeUid":"p","n":"new"}]}`
		case "feed/account/acc0/category/c0":
			return 200, `{"feedItems":[]}`
		case "feed/account/acc1/category/c1", "feed/account/acc1/category/g1", "feed/account/acc1/category/p1", "feed/account/acc1/category/g2", "feed/account/acc1/category/p2", "feed/account/acc2/category/c2":
			from := q.Get("changesSince")
			if from == "" {
				return 400, `{}`
			}
			if len(from) == 20 {
				from = from[:19] + ".000Z"
			}
			var l []string
			for _, i := range items {
				if strings.HasSuffix(p, "/"+i.cat) && i.at >= from {
					l = append(l, feed(i.id, i.at, i.desc))
				}
			}
			return 200, `{"feedItems":` + list(l) + `}`
		}
		return 404, "{}"
	})
	v.Watch(file)
	err := sync(&download.StarlingDownload{PersonalAccessToken: "tok", AllData: all}, file)
	touched := v.Touched()
	v.Assert(!had || !touched, "the file is only ever a complete one")
	if err != nil {
		v.Assert(b.failed, "nothing fails on its own")
		now, have := v.GetFile(file)
		v.Assert(have == had && now == before, "a failed download changes nothing")
		v.Reach("failed")
		return
	}
	v.Assert(!b.failed, "a failure is not taken for data")
	v.Assert(b.keyed, "every request shows the token")
	after, ok := read(file)
	v.Assert(ok && v.Files() == 1, "there is one file of data")
	n := 2
	if stored > 1 {
		n = 3
		v.Assert(at(after, "accounts", "acc0", "account", "accountUid") == "acc0" && at(after, "accounts", "acc0", "identifiers", "iban") == "X", "an account which is gone is kept")
	}
	v.Assert(size(after["accounts"]) == n, "every account is stored once")
	a := at(after, "accounts", "acc1")
	v.Assert(at(a, "account", "accountUid") == "acc1" && at(a, "identifiers", "iban") == "X", "accounts are stored")
	goals, _ := at(a, "spaces", "savingsGoals").([]interface{})
	spaces, _ := at(a, "spaces", "spendingSpaces").([]interface{})
	v.Assert(len(goals) == 2 && len(spaces) == 2, "spaces are stored")
	if len(goals) == 2 && len(spaces) == 2 {
		v.Assert(at(goals[0], "savingsGoalUid") == "g1" && at(spaces[0], "spaceUid") == "p1", "spaces are stored")
		v.Assert(at(goals[1], "savingsGoalUid") == "g2" && at(spaces[1], "spaceUid") == "p2", "spaces are stored")
	}
	pay, _ := after["Payees"].([]interface{})
	v.Assert(len(pay) == 1 && at(pay[0], "n") == "new", "payees are stored")
	f := at(a, "feeditems")
	v.Assert(at(f, "g1", "y", "desc") == "goal" && size(at(f, "g1")) == 1, "the items of savings are stored")
	v.Assert(at(f, "p1", "y", "desc") == "space" && size(at(f, "p1")) == 1, "the items of spaces are stored")
	v.Assert(at(f, "g2", "y", "desc") == "goal 2" && size(at(f, "g2")) == 1, "the items of savings are stored")
	v.Assert(at(f, "p2", "y", "desc") == "space 2" && size(at(f, "p2")) == 1, "the items of spaces are stored")
	b2 := at(after, "accounts", "acc2", "feeditems")
	v.Assert(at(b2, "c2", "u", "desc") == "2" && size(b2) == 1 && size(at(b2, "c2")) == 1, "the items of every account are stored")
	v.Assert(at(f, "c1", "w", "desc") == "new", "new items are stored")
	if stored > 0 {
		v.Assert(at(f, "c1", "t", "desc") == "old" && at(f, "g9", "z", "desc") == "old", "old items are kept")
		v.Assert(at(f, "c1", "u", "desc") != nil, "old items are kept")
	}
	if all || stored == 0 {
		v.Assert(young || at(f, "c1", "u", "desc") == "new", "changed items are stored")
		v.Assert(at(f, "c1", "x", "desc") != nil, "all items are fetched")
		v.Reach("all")
	} else if itemTens >= tens && (!young || itemTens >= "3") {
		v.Assert(at(f, "c1", "u", "desc") == "new" && at(f, "c1", "u", "updatedAt") == items[0].at, "changes of the last days are fetched")
		v.Reach("since")
	}
}

// Nordigen: what is booked is stored by its identity, what is stored is kept.
func Nordigen() {
	v.MapOrder(1)
	file := "s.json"
	now := time.Now().UTC()
	id := v.Str("id", 1, 1, "tuw")
	desc := v.Str("text", 1, 1, "nm")
	stored := v.Choice("stored", 3)
	failAt, how := v.Choice("request which fails", 9), v.Choice("how", ways)
	life := v.Choice("life of the token", 3)
	s := `{"Institution":{"id":"i","name":"I"},"Requisition":{"id":"req","link":"l","accounts":["acc0"]}`
	if life > 0 {
		exp := now.Add(time.Hour)
		if life == 2 {
			exp = now.Add(-time.Hour)
		}
		s += `,"Token":{"Access":"a","AccessExpires":"` + exp.Format(time.RFC3339) + `","Refresh":"r","RefreshExpires":"` + now.Add(30*24*time.Hour).Format(time.RFC3339) + `"}`
	}
	tr := func(id, desc string) string { return `{"transactionId":"` + id + `","desc":"` + desc + `"}` }
	if stored > 0 {
		s += `,"Accounts":{"acc0":{"Basic":{"iban":"0"},"Details":null,"Transactions":{"t":` + tr("t", "old") + `}}`
		if stored > 1 {
			s += `,"acc1":{"Basic":{"iban":"old"},"Details":null,"Transactions":{"t":` + tr("t", "old") + `,"u":` + tr("u", "old") + `}}`
		}
		s += "}"
	}
	v.PutFile(file, s+"}")
	before, _ := v.GetFile(file)
	key := "a"
	if life != 1 {
		key = "new"
	}
	asked := ""
	b := up(key, failAt, how, func(r *http.Request, q url.Values) (int, string) {
		switch strings.TrimPrefix(r.URL.Host+r.URL.Path, "ob.nordigen.com/api/v2/") {
		case "token/new/":
			if r.ParseForm() == nil {
				asked = r.PostForm.Get("secret_id") + r.PostForm.Get("secret_key")
			}
			return 200, `{"access":"new","access_expires":86400,"refresh":"r2","refresh_expires":2592000}`
		case "requisitions/req/":
			return 200, `{"id":"req","link":"l","accounts":["acc1","acc2"],"status":"LN"}`
		case "accounts/acc1/", "accounts/acc2/":
			return 200, `{"iban":"new"}`
		case "accounts/acc1/details", "accounts/acc2/details":
			return 200, `{"account":{"name":"N"}}`
		case "accounts/acc1/transactions":
			return 200, `{"transactions":{"booked":[` + tr(id, desc) + `,` + tr("x", "b") + `],"pending":[` + tr("y", "p") + `]}}`
		case "accounts/acc2/transactions":
			return 200, `{"transactions":{"booked":[` + tr(id, "c") + `],"pending":[]}}`
		}
		return 404, "{}"
	})
	v.Watch(file)
	err := sync(&download.NordigenDownload{ClientID: "me", ClientSecret: "secret"}, file)
	touched := v.Touched()
	v.Assert(!touched, "the file is only ever a complete one")
	if err != nil {
		v.Assert(b.failed, "nothing fails on its own")
		now, _ := v.GetFile(file)
		v.Assert(now == before, "a failed download changes nothing")
		v.Reach("failed")
		return
	}
	v.Assert(!b.failed, "a failure is not taken for data")
	v.Assert(b.keyed && (life == 1 || asked == "mesecret"), "every request shows the token")
	after, ok := read(file)
	v.Assert(ok && v.Files() == 1, "there is one file of data")
	want := map[string]string{}
	n := 2
	if stored > 0 {
		n = 3
		v.Assert(at(after, "Accounts", "acc0", "Transactions", "t", "desc") == "old" && at(after, "Accounts", "acc0", "Basic", "iban") == "0", "an account which is gone is kept")
	}
	if stored > 1 {
		want["t"], want["u"] = "old", "old"
	}
	want[id], want["x"] = desc, "b"
	v.Assert(size(after["Accounts"]) == n, "every account is stored once")
	a := at(after, "Accounts", "acc1")
	v.Assert(at(a, "Basic", "iban") == "new" && at(a, "Details", "account", "name") == "N", "accounts have the latest data")
	v.Assert(size(at(a, "Transactions")) == len(want), "every booked transaction is stored once")
	for id, d := range want {
		v.Assert(at(a, "Transactions", id, "transactionId") == id && at(a, "Transactions", id, "desc") == d, "a transaction has the latest data")
	}
	c := at(after, "Accounts", "acc2", "Transactions")
	v.Assert(size(c) == 1 && at(c, id, "desc") == "c", "transactions of accounts are kept apart")
	v.Assert(at(after, "Institution", "id") == "i" && at(after, "Requisition", "status") == "LN", "the requisition is kept")
	v.Assert(at(after, "Token", "Access") == key, "the token is kept")
	if life != 1 {
		exp, _ := at(after, "Token", "AccessExpires").(string)
		until, err := time.Parse(time.RFC3339, exp)
		v.Assert(err == nil && until.After(now) && !until.After(time.Now().Add(86400*time.Second)), "a token is used as long as it lasts")
	}
	v.Reach("done")
}
