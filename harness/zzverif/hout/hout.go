// Package hout: commands whose output cannot be written.
package hout

import (
	"bytes"
	"errors"
	"strings"

	"github.com/mescanne/goledger/cmd/accounts"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/currencies"
	"github.com/mescanne/goledger/cmd/export"
	"github.com/mescanne/goledger/cmd/generate"
	"github.com/mescanne/goledger/cmd/importer"
	"github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/cmd/reports"
	"github.com/mescanne/goledger/zzverif/v"
)

var errFull = errors.New("no space left")

// disk takes left bytes and fails from then on.
type disk struct {
	buf  bytes.Buffer
	left int
	full bool
	// once: there is space again after a write which failed
	once bool
}

func (d *disk) Len() int       { return d.buf.Len() }
func (d *disk) String() string { return d.buf.String() }

func (d *disk) Write(p []byte) (int, error) {
	if (d.full && !d.once) || (!d.full && len(p) > d.left) {
		d.full = true
		return 0, errFull
	}
	d.left -= len(p)
	return d.buf.Write(p)
}

var commands = [][]string{
	{"accts"},
	{"accts", "--json"},
	{"ccy"},
	{"register", "A"},
	{"register", "--type=CSV", "A"},
	{"register", "--type=JSON", "A"},
	{"report", "--type=Text"},
	{"report", "--type=Ledger"},
	{"report", "--type=Json"},
	{"report", "--type=HTML", "--htmlcss=x"},
	{"report", "--type=Beancount"},
	{"export", "--type=Ledger"},
	{"export", "--type=CSV"},
	{"export", "--type=Json"},
	{"export", "--type=Beancount"},
	{"import", "-a", "A", "-c", "B", "--format=csv", "--code=[add(date=r[0], desc=r[1], amt=r[2]) for r in data]", "in.csv"},
	{"generate", "--code=add(date='2020/01/05', desc='g', amt=1, account='A', caccount='B', ccy='£')"},
}

func run(d *disk, args []string) error {
	a := app.DefaultApp
	a.Ledger, a.Lang, a.Colour, a.BaseCCY, a.Output = "x.ledger", "en", false, "£", d
	root := a.LoadCommand()
	root.SilenceUsage = true
	accounts.Add(root, &a)
	currencies.Add(root, &a)
	register.Add(root, &a, &register.RegisterReport{Type: "Text"})
	reports.Add(root, &a, &reports.TransactionReport{Type: "Text", Combineby: "today"})
	export.Add(root, &a, &export.ExportReport{Type: "Ledger"})
	importer.Add(root, &a, nil)
	generate.Add(root, &a, nil)
	root.SetArgs(args)
	return root.Execute()
}

// Full: a command whose output does not fit is an error, and one whose output
// does fit is not.
func Full() {
	v.MapOrder(0)
	amt := v.Str("amt", 1, v.Bound("digits", 1, 2), "123456789")
	v.PutFile("x.ledger", "2020/01/31 "+v.Str("payee", 1, 1, "p<&'")+"\n  A:x  £"+amt+"\n  B\n"+
		"2020/02/29 p2\n  A:x  £-1.5\n  B\n"+
		"P 2020/03/01 00:00:00 $ £2\n")
	v.PutFile("in.csv", "2020/01/02,B,5\n")
	args := commands[v.Choice("command", len(commands))]
	all := &disk{left: 1 << 20}
	err := run(all, args)
	v.Assert(err == nil && !all.full, "a command whose output is written succeeds")
	size := all.Len()
	v.Assert(size > 0, "a command writes something")
	d := &disk{left: v.Int("space", 0, 2000), once: v.Choice("once", 2) == 1}
	room := d.left >= size
	err = run(d, args)
	v.Observe("failed", err != nil)
	if d.full {
		v.Assert(err != nil, "a command whose output cannot be written in full fails")
		v.Assert(!room, "a command writes no more than its output")
		v.Reach("failed")
	} else {
		v.Assert(err == nil && room, "a command whose output is written succeeds")
		v.Assert(d.String() == all.String(), "the output does not depend on the space there is")
		v.Reach("done")
	}
	v.Assert(d.once || strings.HasPrefix(all.String(), d.String()), "what is written is the beginning of the output")
}
