// Package hconf: the configuration file, through the whole command.
package hconf

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/mescanne/goledger/cmd"
	"github.com/mescanne/goledger/zzverif/v"
)

// run runs the program and returns what it writes to standard output.
func run(args ...string) (string, error) {
	os.Args = append([]string{"goledger"}, args...)
	v.Capture()
	err := cmd.Execute()
	return v.Captured(), err
}

// env sets the variables which say where the configuration is.
func env(home, xdg, conf string) func() {
	old := [3]string{os.Getenv("HOME"), os.Getenv("XDG_CONFIG_HOME"), os.Getenv("GOLEDGER_CONF")}
	v.Setenv("HOME", home)
	v.Setenv("XDG_CONFIG_HOME", xdg)
	v.Setenv("GOLEDGER_CONF", conf)
	return func() {
		v.Setenv("HOME", old[0])
		v.Setenv("XDG_CONFIG_HOME", old[1])
		v.Setenv("GOLEDGER_CONF", old[2])
	}
}

func ledger(name, acct string) {
	v.PutFile(name, "2020/01/02 P\n  "+acct+"  £1\n  Other\n")
}

// Which: the first configuration file there is counts, alone; nothing else is
// looked at, none is changed.
func Which() {
	v.MapOrder(0)
	xdg := ""
	conf := []string{"", "c.toml"}[v.Choice("environment", 2)]
	defer env("h", xdg, conf)()
	if conf == "" && v.Choice("unset", 2) == 1 {
		v.Unsetenv("GOLEDGER_CONF")
	}
	// The places in order; what is not looked at comes after them.
	places := []string{"h/.config/goledger/goledger.toml", "h/.config/goledger/goledger.cfg",
		"h/goledger.toml", "h/goledger.cfg", "h/.goledger.toml", "h/.goledger.cfg", "goledger.toml", "goledger.cfg"}
	if conf != "" {
		places = append([]string{conf}, places...)
	}
	ledger("main.ledger", "Main")
	first := v.Choice("first", len(places)+1)
	bad := 0
	if first < len(places) {
		bad = v.Choice("state of the first", 8)
	}
	other := v.Choice("another", len(places)+1)
	acct := func(i int) string { return "F" + string(rune('a'+i)) }
	text := map[string]string{}
	put := func(name, s string) {
		v.PutFile(name, s)
		text[name] = s
	}
	for i := range places {
		ledger("l"+acct(i), acct(i))
		switch {
		case i == first && bad == 1:
			put(places[i], "ledger = \"l"+acct(i)+"\n")
		case i == first && bad == 2:
			put(places[i], "ledger = \"l"+acct(i)+"\"\nledgr = \"x\"\n")
		case i == first && bad == 3:
			put(places[i], "ledger = \"l"+acct(i)+"\"\nverbose = \"x\"\n")
		case i == first && bad == 4:
			put(places[i], "ledger = \"l"+acct(i)+"\"\n[report]\nkind = \"Text\"\n")
		case i == first && bad == 6:
			put(places[i], "ledger = \"l"+acct(i)+"\"\n[importdefs.bank]\nacount = \"A\"\n")
		case i == first && bad == 7:
			put(places[i], "ledger = \"l"+acct(i)+"\"\n[importdefs.bank.params.more]\nx = \"A\"\n")
		case i == first && bad == 5:
			put(filepath.Join(places[i], "file"), "x")
		case i == first || i == other && i > first:
			put(places[i], "ledger = \"l"+acct(i)+"\"\n")
		}
	}
	alone := conf != "" && first > 0
	n := v.Files()
	out, err := run("accts", "--json")
	for name, s := range text {
		now, ok := v.GetFile(name)
		v.Assert(ok && now == s, "a configuration file which exists is not changed")
	}
	if alone || first == len(places) {
		def := places[0]
		v.Assert(err == nil && strings.Contains(out, "\"Main\""), "with no configuration file the defaults are used")
		now, ok := v.GetFile(def)
		v.Assert(ok && now == cmd.DEFAULT_CONFIG_FILE && v.Files() == n+1, "a first configuration file is written for the user")
		again, err := run("accts", "--json")
		v.Assert(err == nil && again == out, "the configuration file written says what is used without one")
		v.Reach("none")
		return
	}
	v.Assert(v.Files() == n, "no other configuration file is written")
	if bad != 0 {
		v.Assert(err != nil && out == "", "a configuration file which cannot be used is an error")
		v.Reach("bad")
		return
	}
	v.Assert(err == nil, "a configuration file is used")
	for i := range places {
		v.Assert(strings.Contains(out, "\""+acct(i)+"\"") == (i == first), "the first configuration file there is counts")
	}
	v.Reach("used")
}

// First: a first configuration file which cannot be written is an error.
func First() {
	v.MapOrder(0)
	conf := []string{"", "c/c.toml"}[v.Choice("environment", 2)]
	defer env("h", "", conf)()
	ledger("main.ledger", "Main")
	switch v.Choice("what fails", 3) {
	case 0:
		v.LimitWrites(v.Int("bytes which fit", 0, len(cmd.DEFAULT_CONFIG_FILE)-1))
	case 1: // a file where a directory has to be
		v.PutFile("c", "x")
		v.PutFile("h/.config/goledger", "x")
	case 2:
		v.PutFile("c", "x")
		v.PutFile("h/.config", "x")
	}
	out, err := run("accts", "--json")
	v.LimitWrites(-1)
	v.Assert(err != nil && out == "", "a configuration file which cannot be written is an error")
	v.Reach("end")
}

const values = `2020/01/02 Pay
  Asset:Bank   1.00 EUR
  Income:Job

2020/01/20 Shop
  Expense:Food   £2.50
  Expense:Home   £1.25
  Asset:Bank    £-3.75

2020/02/03 Shop
  Expense:Food   £4
  Asset:Bank

2020/02/03 Back
  Expense:Food   £-6.50
  Asset:Bank

P 2020/01/01 00:00:00 EUR £0.80
`

// An opt is an option of a command, in the configuration file and on the
// command line, with two values of its own.
type opt struct{ section, key, flag, kind string }

var commands = []string{"register", "report", "export", "accts"}

func options(command string) []opt {
	o := []opt{{"", "ledger", "ledger", "file"}, {"", "baseccy", "ccy", "ccy"}, {"", "all", "all", "bool"},
		{"", "colour", "colour", "bool"}, {"", "divider", "divider", "text"}, {"", "lang", "lang", "lang"}, {"", "verbose", "verbose", "bool"}}
	switch command {
	case "register":
		for _, b := range [][2]string{{"asc", "asc"}, {"combined", "combined"}, {"zerostart", "zero"}, {"split", "split"}, {"convert", "convert"}} {
			o = append(o, opt{"register", b[0], b[1], "bool"})
		}
		o = append(o, opt{"register", "count", "count", "int"}, opt{"register", "type", "type", "regtype"},
			opt{"register", "begindate", "begin", "date"}, opt{"register", "enddate", "asof", "date"})
	case "report":
		for _, b := range [][2]string{{"sum", "sum"}, {"convert", "convert"}, {"jsonpretty", "jsonpretty"}} {
			o = append(o, opt{"report", b[0], b[1], "bool"})
		}
		o = append(o, opt{"report", "type", "type", "reptype"}, opt{"report", "credit", "credit", "regex"},
			opt{"report", "hidden", "hidden", "regex"}, opt{"report", "combineby", "splitby", "floor"}, opt{"report", "htmlcss", "htmlcss", "text"})
	case "export":
		o = append(o, opt{"export", "jsonpretty", "jsonpretty", "bool"}, opt{"export", "type", "type", "exptype"})
	}
	return o
}

// value is a value of a kind, as the command line and the file say it.
func value(name, kind string) (string, string) {
	switch kind {
	case "bool":
		s := []string{"false", "true"}[v.Choice(name, 2)]
		return s, s
	case "int":
		s := []string{"1", "2", "-1", "-3", "0"}[v.Choice(name, 5)]
		return s, s
	}
	var s string
	switch kind {
	case "file":
		s = []string{"values.ledger", "main.ledger", "none.ledger"}[v.Choice(name, 3)]
	case "ccy":
		s = []string{"£", "EUR", "X"}[v.Choice(name, 3)]
	case "lang":
		s = []string{"en", "de", "fr"}[v.Choice(name, 3)]
	case "text":
		s = v.Str(name, 1, 1, ":/-x")
	case "regex":
		s = []string{"^Income", "Food", "", "Bank$"}[v.Choice(name, 4)]
	case "date":
		s = []string{"2020-01-20", "2020-02-01", "soon"}[v.Choice(name, 3)]
	case "regtype":
		s = []string{"Text", "json", "Ledger", "csv"}[v.Choice(name, 4)]
	case "reptype":
		s = []string{"text", "JSON", "Ledger", "HTML", "Beancount", "CSV"}[v.Choice(name, 6)]
	case "exptype":
		s = []string{"ledger", "Json", "Beancount", "csv", "Text"}[v.Choice(name, 5)]
	case "floor":
		s = []string{"yearly", "Monthly", "skip", "never"}[v.Choice(name, 4)]
	}
	return s, "\"" + s + "\""
}

// Values: a value of the configuration file is as good as one of the command
// line, and the command line counts where both are given.
func Values() {
	v.MapOrder(0)
	defer env("h", "", "c.toml")()
	command := commands[v.Choice("command", len(commands))]
	opts := options(command)
	o := opts[v.Choice("option", len(opts))]
	x, xs := value("value", o.kind)
	v.PutFile("values.ledger", values)
	v.PutFile("main.ledger", values+"\n2020/02/10 Gift\n  Asset:Bank  1000 EUR\n  Income:Gift\n")
	args := []string{command}
	if command == "register" {
		args = append(args, "Bank|Food")
	}
	base := ""
	if o.key != "ledger" {
		base += "ledger = \"main.ledger\"\n"
	}
	if o.key != "baseccy" {
		base += "baseccy = \"£\"\n"
	}
	rest := ""
	switch command {
	case "register", "report":
		rest = "[" + command + "]\n"
		if o.key != "type" {
			rest += "type = \"Text\"\n"
		}
		for _, k := range []string{"sum", "convert"} {
			if command == "report" && o.key != k {
				rest += k + " = true\n"
			}
		}
	case "export":
		rest = "[export]\n"
	}
	own := base + rest
	if o.section == "" {
		own = base + o.key + " = " + xs + "\n" + rest
	} else {
		own += o.key + " = " + xs + "\n"
	}
	base += rest
	v.PutFile("c.toml", base)
	want, werr := run(append(args, "--"+o.flag+"="+x)...)
	v.PutFile("c.toml", own)
	if v.Choice("given", 2) == 0 {
		got, gerr := run(args...)
		v.Assert((gerr == nil) == (werr == nil) && got == want, "a value in the configuration file works as on the command line")
		if gerr == nil {
			v.Reach("configured " + command)
		}
		return
	}
	y, _ := value("other value", o.kind)
	got, gerr := run(append(args, "--"+o.flag+"="+y)...)
	v.PutFile("c.toml", base)
	want, werr = run(append(args, "--"+o.flag+"="+y)...)
	v.Assert((gerr == nil) == (werr == nil) && got == want, "the command line counts before the configuration file")
	if gerr == nil {
		v.Reach("overridden " + command)
	}
}

// Macros: a macro of the configuration file is its operations, in every
// command.
func Macros() {
	v.MapOrder(0)
	defer env("h", "", "c.toml")()
	command := commands[v.Choice("command", 3)]
	ops := []string{"map=/^Asset:(.*)$/Own:$1/", "asof=2020-02-01", "since=2020-01-15", "move=/^Expense:(.*)$/Other:$1/0.5/", "mapccy=/EUR/£/", "combine=monthly", "nonsense=1"}
	var list []string
	for i := 0; i < 2; i++ {
		list = append(list, ops[v.Choice("operation", len(ops))])
	}
	v.PutFile("main.ledger", values)
	base := "baseccy = \"£\"\n[register]\ntype = \"Text\"\n[report]\ntype = \"Text\"\nsum = true\nconvert = true\n"
	v.PutFile("c.toml", base)
	with := func(l ...string) []string {
		a := append([]string{command}, l...)
		if command == "register" {
			a = append(a, "Own|Expense|Other")
		}
		return a
	}
	want, werr := run(with(list...)...)
	v.PutFile("c.toml", base+"[macros]\nother = [\"asof=1999-01-01\"]\nboth = [\""+list[0]+"\", \"second\"]\nsecond = [\""+list[1]+"\"]\n")
	got, gerr := run(with("both")...)
	v.Assert((gerr == nil) == (werr == nil) && got == want, "a macro of the configuration file is its operations")
	if gerr != nil {
		v.Reach("refused")
		return
	}
	v.Reach("applied " + command)
}

// Imports: an import defined in the configuration file is the import with its
// values on the command line; what is given there counts before.
func Imports() {
	v.MapOrder(0)
	defer env("h", "", "c.toml")()
	base := "baseccy = \"£\"\n"
	v.PutFile("main.ledger", values)
	amt := v.Str("amount", 1, 1, "12345")
	delim := []string{"|", ";"}[v.Choice("delim", 2)]
	header := []string{"", "true", "false", "maybe"}[v.Choice("header", 4)]
	v.PutFile("in.csv", strings.Join([]string{"2020-01-20", "Shop", "-3.75"}, delim)+"\n"+strings.Join([]string{"2020-03-01", "Other", amt}, delim)+"\n")
	acct := []string{"Asset:Bank", "Asset:Own"}[v.Choice("acct", 2)]
	dedup, recl := v.Choice("dedup", 2) == 1, v.Choice("reclassify", 2) == 1
	code := "[add(date=r[0], desc=r[1], amt=r[2]) for r in data]"
	yes := func(b bool) string {
		if b {
			return "true"
		}
		return "false"
	}
	if v.Choice("script", 2) == 1 {
		code = "[add(date=r[0], desc=r[0], amt=r[2], ccy='EUR') for r in data]"
	}
	def := "[importdefs.other]\naccount = \"Other\"\n[importdefs.bank]\nconfigtype = \"csv\"\naccount = \"" + acct + "\"\ncounteraccount = \"Misc\"\ncode = \"" + code + "\"\n" +
		"dedup = " + yes(dedup) + "\nreclassify = " + yes(recl) + "\n[importdefs.bank.params]\ndelim = \"" + delim + "\"\n"
	format := "csv:delim=" + delim
	if header != "" {
		def += "header = \"" + header + "\"\n"
		format += ",header=" + header
	}
	over := v.Choice("overridden", 4)
	var more []string
	switch over {
	case 1:
		acct = "Own:Account"
		more = []string{"-a", acct}
	case 2:
		dedup = !dedup
		more = []string{"--dedup=" + yes(dedup)}
	case 3:
		more = []string{"--cacct", "Elsewhere", "--ccy", "$"}
	}
	cacct := "Misc"
	args := []string{"import"}
	if over == 3 {
		cacct = "Elsewhere"
		args = append(args, "--ccy=$")
	}
	v.PutFile("c.toml", base)
	want, werr := run(append(args, "--format="+format, "-a", acct, "-c", cacct, "--code="+code, "--dedup="+yes(dedup), "--reclassify="+yes(recl), "in.csv")...)
	v.PutFile("c.toml", base+def)
	got, gerr := run(append(append([]string{"import", "bank"}, more...), "in.csv")...)
	v.Assert((gerr == nil) == (werr == nil) && got == want, "an import of the configuration file works as one on the command line")
	if gerr != nil {
		v.Assert(header == "maybe" || header == "true", "an import works")
		v.Reach("refused")
		return
	}
	v.Observe("imported", got)
	v.Assert(strings.Contains(got, "2020/03/01"), "an import writes its rows")
	v.Reach("imported")
	// and a generator
	v.PutFile("c.toml", base+"[generate.gen]\ndedup = "+yes(dedup)+"\ncode = \"add(date='2020-01-02', desc='Pay', amt='"+amt+"', account='A', caccount='B', ccy='£')\"\n")
	got, gerr = run("generate", "gen")
	v.PutFile("c.toml", base)
	want, werr = run("generate", "--dedup="+yes(dedup), "--code=add(date='2020-01-02', desc='Pay', amt='"+amt+"', account='A', caccount='B', ccy='£')")
	v.Assert(gerr == nil && werr == nil && got == want, "a generator of the configuration file works as one on the command line")
	v.Reach("generated")
}

// Failures: a command which cannot do what it is asked says so and writes
// nothing.
func Failures() {
	v.MapOrder(0)
	defer env("h", "", "c.toml")()
	v.PutFile("c.toml", "baseccy = \"£\"\n[register]\ntype = \"Text\"\n[report]\ntype = \"Text\"\nsum = true\nconvert = true\n")
	v.PutFile("in.csv", "2020-01-21|New|-3.75\n")
	args := [][]string{{"accts"}, {"ccy"}, {"export"}, {"export", "--type=json"}, {"export", "--type=csv"}, {"export", "--type=beancount"},
		{"register", "Bank"}, {"register", "--combined", "--type=csv", "Bank"}, {"report"}, {"report", "--type=html"}, {"report", "--type=ledger"}, {"report", "--type=json"}, {"report", "--type=beancount"},
		{"import", "--format=csv:delim=|", "--reclassify=false", "-a", "Asset:Bank", "-c", "Misc", "--code=[add(date=r[0], desc=r[1], amt=r[2]) for r in data]", "in.csv"},
		{"generate", "--code=add(date='2020-01-02', desc='New', amt='1', account='A', caccount='B', ccy='£')"}}[v.Choice("command", 15)]
	text := values
	fails := true
	switch v.Choice("failure", 9) {
	case 0:
		text = ""
	case 1: // a transaction which may not balance
		d := v.Str("amount", 1, 1, "0123456789")
		text += "\n2020/03/01 Last\n  Asset:Bank   £1.50\n  Income:Job  £-1.5" + d + "\n"
		fails = d != "0"
	case 2: // and before the end
		d := v.Str("amount", 1, 1, "0123456789")
		text = "2020/03/01 First\n  Asset:Bank   £1.50\n  Income:Job  £-1." + d + "\n\n" + text
		fails = d != "5"
	case 3: // a date which may be none
		d := v.Str("day", 2, 2, "0123")
		text += "\n2020/03/" + d + " Last\n  Asset:Bank   £1.50\n  Income:Job  £-1.50\n"
		fails = d == "00" || d[0] == '3' && d[1] > '1'
	case 4:
		text += "\n  Asset:Bank  £1\n"
	case 5:
		args = append(args, "--nonsense")
	case 6:
		args[0] += "x"
	case 7: // an argument which is no regular expression, operation or file
		switch args[0] {
		case "ccy", "generate":
			args = append(args, "argument")
		case "accts", "register":
			args = append(args, "[")
		default:
			args = append(args, "nonsense")
			fails = args[0] != "import" // which writes the files before
		}
	case 8:
		fails = false
	}
	if text != "" {
		v.PutFile("main.ledger", text)
	}
	out, err := run(args...)
	if fails {
		v.Assert(err != nil && out == "", "a command which fails says so and writes nothing")
		v.Reach("failed")
		return
	}
	if args[len(args)-1] == "nonsense" {
		v.Assert(err != nil, "a command which fails says so")
		return
	}
	v.Assert(err == nil && out != "", "a command which can do what it is asked does it")
	v.Reach("done")
}
