// Package hstate: the files in which downloads keep their data.
package hstate

import (
	"strconv"
	"strings"
	"time"

	"github.com/mescanne/goledger/cmd/download"
	"github.com/mescanne/goledger/cmd/utils"
	"github.com/mescanne/goledger/zzverif/v"
)

const chars = "a<>&\"\\/{}:,"

var files = []string{"s.json", "s.json.gz", "d/e/s.json", "d/e/s.gz", "s.new"}

// text is a string of JSON, quoted.
func text(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			b = append(b, '\\')
		}
		b = append(b, s[i])
	}
	return string(append(b, '"'))
}

func item(d interface{}, k string) interface{} {
	m, ok := d.(map[string]interface{})
	if !ok {
		return nil
	}
	return m[k]
}

// prior puts what may be there before a file is saved; it tells the content
// of the file and whether there is one.
func prior(file string) (string, bool) {
	old, have := "", false
	switch v.Choice("prior", 3) {
	case 1:
		v.PutFile(file, "{}")
		have = true
	case 2:
		v.PutFile(file, strings.Repeat("{\"transactions\": 1}", 100))
		have = true
	}
	if v.Choice("left over", 2) == 1 {
		v.PutFile(file+".new", stale)
	}
	if have {
		old, _ = v.GetFile(file)
	}
	return old, have
}

var stale = strings.Repeat("x", 3000)

// alone tells whether nothing is left but the file and what was there before
// saving.
func alone(file string, have bool) bool {
	n := v.Files()
	if have {
		n--
	}
	if s, ok := v.GetFile(file + ".new"); ok && s == stale {
		n--
	}
	return n == 0
}

// Monzo: what is saved is what is read.
func Monzo() {
	v.MapOrder(0)
	file := files[v.Choice("file", len(files))]
	n := v.Bound("characters of a text", 2, 3)
	s, num, null := "x", "1", v.Bool("null")
	id := "t1"
	switch v.Choice("field", 3) {
	case 0:
		s = v.Str("text", 0, n, chars)
	case 1:
		num = v.Str("amount", 1, v.Bound("digits of an amount", 4, 8), "0123456789")
		if num[0] == '0' {
			num = "0.5" + num + "1"
		}
		if v.Choice("negative", 2) == 1 {
			num = "-" + num
		}
	case 2:
		id = v.Str("id", 0, n, chars)
	}
	var t, u download.Transaction
	note := `"n"`
	if null {
		note = "null"
	}
	if err := t.UnmarshalJSON([]byte(`{"id":` + text(id) + `,"created":"2020-01-01","t":` + text(s) + `,"n":` + num + `,"note":` + note + `,"list":[1,` + text(s) + `,{}]}`)); err != nil {
		v.Assert(false, "a transaction is read")
		return
	}
	if err := u.UnmarshalJSON([]byte(`{"id":"u","created":"2020"}`)); err != nil {
		v.Assert(false, "a transaction is read")
		return
	}
	var d download.MonzoData
	d.Transactions = map[string]*download.Transaction{t.ID: &t, u.ID: &u}
	prior(file)
	v.Watch(file)
	err := utils.SaveToFile(file, &d)
	touched := v.Touched()
	v.Assert(err == nil, "the data are saved")
	v.Assert(!touched, "the file is only ever a complete one")
	v.Assert(alone(file, true), "nothing else is left")
	var r download.MonzoData
	v.Assert(utils.LoadFromFile(file, &r) == nil, "the data are read")
	want := 2
	if id == "u" {
		want = 1
	}
	v.Assert(len(r.Transactions) == want && r.Accounts == nil && r.Token == nil, "everything is read and nothing else")
	if want == 2 {
		x := r.Transactions[id]
		if x == nil {
			v.Assert(false, "a transaction is found by its id")
			return
		}
		v.Assert(x.ID == id && x.Created == "2020-01-01", "a transaction is itself")
		v.Assert(item(x.Data, "t") == s, "texts are kept")
		f, _ := item(t.Data, "n").(float64)
		g, ok := item(x.Data, "n").(float64)
		v.Assert(ok && f == g, "amounts are kept")
		if null {
			_, have := x.Data.(map[string]interface{})["note"]
			v.Assert(have && item(x.Data, "note") == nil, "nothing stays nothing")
		} else {
			v.Assert(item(x.Data, "note") == "n", "notes are kept")
		}
		l, _ := item(x.Data, "list").([]interface{})
		v.Assert(len(l) == 3, "lists are kept")
		if len(l) == 3 {
			v.Assert(l[1] == s, "lists are kept")
		}
		v.Reach("end")
	}
}

const plenty = 300

// Full: a full disk at any byte keeps the file.
func Full() {
	v.MapOrder(0)
	file := files[v.Choice("file", len(files))]
	size := v.Bound("characters of the data", 4, 7)
	val := v.Str("data", 0, size, "ab\"")
	data := map[string]string{"k": val}
	whole := len("{\n  \"k\": \"\"\n}") + len(val)
	for i := 0; i < len(val); i++ {
		if val[i] == '"' {
			whole++
		}
	}
	gz := strings.HasSuffix(file, ".gz")
	if gz {
		// the sizes of compressed data are not compared
		whole = 11
	}
	old, have := prior(file)
	// as many as may be needed, or more than enough
	limit := v.Int("bytes which fit", 0, plenty)
	v.Assume(limit <= whole+1 && (!gz || limit <= 10) || limit == plenty)
	v.Watch(file)
	v.LimitWrites(limit)
	err := utils.SaveToFile(file, data)
	v.LimitWrites(-1)
	touched := v.Touched()
	v.Assert(!touched, "the file is only ever a complete one")
	now, haveNow := v.GetFile(file)
	if err != nil {
		v.Assert(limit < plenty, "data which fit are saved")
		v.Assert(haveNow == have && now == old, "the old file is kept")
		v.Assert(alone(file, have), "nothing else is left")
		v.Reach("full")
		return
	}
	var r map[string]string
	v.Assert(utils.LoadFromFile(file, &r) == nil && len(r) == 1 && r["k"] == val, "what is saved is complete")
	v.Assert(alone(file, true), "nothing else is left")
	v.Reach("saved")
}

// Damaged: a file which is cut or has other text is not taken for data.
func Damaged() {
	v.MapOrder(0)
	file := files[v.Choice("file", 2)]
	how := v.Choice("how", 5)
	full := `{"transactions":{"t1":{"id":"t1","created":"2020"}},"accounts":{}}`
	if how == 0 {
		var d download.MonzoData
		v.Assert(utils.LoadFromFile(file, &d) == nil, "no file is no data")
		v.Assert(d.Transactions == nil && d.Accounts == nil && d.Token == nil, "no file is no data")
		v.Assert(v.Files() == 0, "no file is written")
		v.Reach("none")
		return
	}
	bad := false
	content := full
	switch how {
	case 1: // cut
		if file == "s.json" {
			n := v.Choice("cut", len(full)+1)
			content, bad = full[:n], n < len(full)
		} else {
			// cut a compressed file
			var d download.MonzoData
			v.PutFile("t.json", full)
			if utils.LoadFromFile("t.json", &d) != nil || utils.SaveToFile(file, &d) != nil {
				v.Assert(false, "saved")
				return
			}
			b, _ := v.GetFile(file)
			n := v.Choice("cut", 20)
			if n < 10 {
				content = b[:n] // of the start
			} else {
				content = b[:len(b)-(n-10)] // of the end
				if n == 10 {
					content = b
				}
			}
			bad = len(content) < len(b)
		}
	case 2: // more text
		content = full + v.Str("more", 1, v.Bound("characters after the data", 2, 3), " \nx{}]0")
		rest := strings.Trim(content[len(full):], " \n")
		bad = rest != ""
	case 3: // another byte
		p := v.Choice("at", len(full))
		c := v.Str("byte", 1, 1, "x0 ]")
		content = full[:p] + c + full[p+1:]
		// a letter within a string is another text, everywhere else it is not JSON
		in := strings.Count(full[:p], `"`)%2 == 1 && full[p] != '"'
		v.Assume(!in)
		bad = true
	case 4: // a transaction which is none
		content = []string{
			`{"transactions":{"t1":{"created":"2020"}}}`,
			`{"transactions":{"t1":{"id":1,"created":"2020"}}}`,
			`{"transactions":{"t1":{"id":"t1"}}}`,
			`{"transactions":{"t1":7}}`,
			`{"transactions":[]}`,
			`{"accounts":{"a":{}}}`,
			`[]`,
			`""`,
		}[v.Choice("wrong", 8)]
		bad = true
	}
	if how != 1 && file != "s.json" {
		// text is not compressed data
		bad = true
	}
	v.PutFile(file, content)
	var d download.MonzoData
	err := utils.LoadFromFile(file, &d)
	if bad {
		v.Assert(err != nil, "a damaged file is refused")
		v.Reach("refused")
	} else {
		v.Assert(err == nil, "a whole file is read")
		v.Assert(len(d.Transactions) == 1 && d.Transactions["t1"] != nil, "a whole file has its data")
		v.Reach("read")
	}
	now, ok := v.GetFile(file)
	v.Assert(ok && now == content, "reading does not change a file")
}

// Banks: the data of the other banks are read as they were saved.
func Banks() {
	v.MapOrder(0)
	file := files[v.Choice("file", 2)]
	n := v.Bound("characters of a text", 2, 3)
	s := v.Str("text", 0, n, chars)
	q := text(s)
	id := v.Str("id", 1, n, "ab")
	if v.Choice("bank", 2) == 0 {
		var acct download.StarlingAccount
		var item, other download.FeedItem
		var goal download.SavingsGoal
		var space download.SpendingSpace
		bad := false
		for _, e := range []error{
			acct.UnmarshalJSON([]byte(`{"accountUid":` + q + `,"defaultCategory":"c","createdAt":"2020","x":` + q + `}`)),
			item.UnmarshalJSON([]byte(`{"feedItemUid":"` + id + `","transactionTime":"2021","updatedAt":"2022","x":` + q + `}`)),
			other.UnmarshalJSON([]byte(`{"feedItemUid":"z","transactionTime":` + q + `,"updatedAt":` + q + `}`)),
			goal.UnmarshalJSON([]byte(`{"savingsGoalUid":"g","name":` + q + `,"y":1}`)),
			space.UnmarshalJSON([]byte(`{"spaceUid":"p","name":` + q + `}`)),
		} {
			bad = bad || e != nil
		}
		v.Assert(!bad, "the data are read")
		d := download.StarlingData{
			Accounts: map[string]*download.StarlingAccountData{
				s: {Account: &acct, Identifiers: map[string]interface{}{"i": s},
					FeedItems: map[string]map[string]*download.FeedItem{"c": {id: &item, "z": &other}, "g": {}},
					Spaces:    &download.Spaces{SavingsGoals: []download.SavingsGoal{goal}, SpendingSpaces: []download.SpendingSpace{space}}},
			},
			Payees: []interface{}{s, 2.5},
		}
		v.Assert(utils.SaveToFile(file, &d) == nil, "the data are saved")
		var r download.StarlingData
		v.Assert(utils.LoadFromFile(file, &r) == nil, "the data are read")
		v.Assert(len(r.Accounts) == 1 && r.Accounts[s] != nil, "accounts are kept")
		v.Assert(len(r.Payees) == 2 && r.Payees[0] == s && r.Payees[1] == 2.5, "payees are kept")
		x := r.Accounts[s]
		if x == nil || x.Account == nil || x.Spaces == nil {
			v.Assert(false, "accounts are kept")
			return
		}
		v.Assert(x.Account.AccountUid == s && x.Account.DefaultCategory == "c" && x.Account.CreatedAt == "2020" && str(x.Account.Data, "x") == s, "accounts are kept")
		v.Assert(str(x.Identifiers, "i") == s, "identifiers are kept")
		v.Assert(len(x.Spaces.SavingsGoals) == 1 && len(x.Spaces.SpendingSpaces) == 1, "spaces are kept")
		v.Assert(x.Spaces.SavingsGoals[0].Name == s && x.Spaces.SavingsGoals[0].SavingsGoalUid == "g" && num(x.Spaces.SavingsGoals[0].Data, "y") == 1, "spaces are kept")
		v.Assert(x.Spaces.SpendingSpaces[0].Name == s && x.Spaces.SpendingSpaces[0].SpaceUid == "p", "spaces are kept")
		v.Assert(len(x.FeedItems["c"]) == 2, "items are kept")
		a, b := x.FeedItems["c"][id], x.FeedItems["c"]["z"]
		v.Assert(a != nil && b != nil, "items are kept")
		if a != nil && b != nil {
			v.Assert(a.FeedItemUid == id && a.TransactionTime == "2021" && a.UpdatedAt == "2022" && str(a.Data, "x") == s, "items are kept")
			v.Assert(b.FeedItemUid == "z" && b.TransactionTime == s && b.UpdatedAt == s, "items are kept")
		}
		v.Reach("starling")
		return
	}
	var inst download.Institution
	var req download.Requisition
	var tr download.NordigenTransaction
	bad := false
	for _, e := range []error{
		inst.UnmarshalJSON([]byte(`{"id":"i","name":` + q + `,"x":[null]}`)),
		req.UnmarshalJSON([]byte(`{"id":"r","link":` + q + `,"accounts":[` + q + `,"` + id + `"]}`)),
		tr.UnmarshalJSON([]byte(`{"transactionId":"` + id + `","x":` + q + `,"n":-2.5}`)),
	} {
		bad = bad || e != nil
	}
	v.Assert(!bad, "the data are read")
	at := time.Date(2020, 2, 28, 23, 59, v.Choice("seconds", 2)*59, 123000000, time.UTC)
	d := download.NordigenData{
		Token:       &download.NordigenToken{Access: s, AccessExpires: at, Refresh: id, RefreshExpires: at.Add(time.Hour)},
		Accounts:    map[string]*download.NordigenAccount{s: {Basic: s, Details: map[string]interface{}{}, Transactions: map[string]*download.NordigenTransaction{id: &tr}}},
		Institution: &inst,
		Requisition: &req,
	}
	v.Assert(utils.SaveToFile(file, &d) == nil, "the data are saved")
	var r download.NordigenData
	v.Assert(utils.LoadFromFile(file, &r) == nil, "the data are read")
	if r.Token == nil || r.Institution == nil || r.Requisition == nil || len(r.Accounts) != 1 || r.Accounts[s] == nil || len(r.Accounts[s].Transactions) != 1 || r.Accounts[s].Transactions[id] == nil {
		v.Assert(false, "all parts are kept")
		return
	}
	v.Assert(r.Token.Access == s && r.Token.Refresh == id && r.Token.AccessExpires.Equal(at) && r.Token.RefreshExpires.Equal(at.Add(time.Hour)), "the token is kept")
	v.Assert(r.Institution.Id == "i" && r.Institution.Name == s, "the institution is kept")
	v.Assert(r.Requisition.Id == "r" && r.Requisition.Link == s && len(r.Requisition.Accounts) == 2 && r.Requisition.Accounts[0] == s && r.Requisition.Accounts[1] == id, "the requisition is kept")
	x := r.Accounts[s]
	v.Assert(x.Basic == s, "accounts are kept")
	y := x.Transactions[id]
	v.Assert(y.Id == id && str(y.Data, "x") == s && num(y.Data, "n") == -2.5, "transactions are kept")
	v.Reach("nordigen")
}

func str(d interface{}, k string) string {
	s, ok := item(d, k).(string)
	if !ok {
		return "not a string"
	}
	return s
}

func num(d interface{}, k string) float64 {
	f, _ := item(d, k).(float64)
	return f
}

// Many: a long history with long texts.
func Many() {
	v.MapOrder(0)
	file := files[v.Choice("file", 2)]
	n := v.Bound("transactions", 150, 400)
	s := v.Str("text", 1, 2, "a\"<\\") + "é"
	long := strings.Repeat("0123456789", []int{0, 50, 7000}[v.Choice("length", 3)])
	d := download.MonzoData{Transactions: map[string]*download.Transaction{}}
	id := func(i int) string { return "tx_" + strconv.Itoa(i*31%n) }
	for i := 0; i < n; i++ {
		t := map[string]interface{}{"id": id(i), "created": "2020", "n": float64(i), "desc": "d" + strconv.Itoa(i)}
		if i == n/2 {
			t["desc"] = long + s
		}
		d.Transactions[id(i)] = &download.Transaction{ID: id(i), Created: "2020", Data: t}
	}
	v.Assert(utils.SaveToFile(file, &d) == nil, "data are saved")
	var r download.MonzoData
	v.Assert(utils.LoadFromFile(file, &r) == nil, "what is saved can be read")
	v.Assert(len(r.Transactions) == n, "every transaction is read")
	for i := 0; i < n; i++ {
		t := r.Transactions[id(i)]
		if t == nil {
			v.Assert(false, "every transaction is read")
			continue
		}
		want := "d" + strconv.Itoa(i)
		if i == n/2 {
			want = long + s
		}
		v.Assert(str(t.Data, "desc") == want && num(t.Data, "n") == float64(i) && t.ID == id(i) && t.Created == "2020", "every transaction is read as it was saved")
	}
	v.Reach("end")
}
