// Package hcli: option values given on the command line.
package hcli

import (
	"strings"

	"github.com/mescanne/goledger/cmd/utils"
	"github.com/mescanne/goledger/zzverif/v"
)

type kv struct{ k, v string }

// parse reads type:key=value,key,... on its own.
func parse(s string) (typ string, kvs []kv, ok bool) {
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return s, nil, true
	}
	typ = s[:i]
	rest := s[i+1:]
	for {
		j := strings.IndexByte(rest, ',')
		item := rest
		if j >= 0 {
			item = rest[:j]
		}
		e := kv{item, "true"}
		if k := strings.IndexByte(item, '='); k >= 0 {
			e = kv{item[:k], item[k+1:]}
		}
		for _, o := range kvs {
			if o.k == e.k {
				return "", nil, false
			}
		}
		kvs = append(kvs, e)
		if j < 0 {
			return typ, kvs, true
		}
		rest = rest[j+1:]
	}
}

// Config: an option with parameters is read as it is written.
func Config() {
	s := v.Str("option", 0, v.Bound("characters of an option", 6, 10), "ab:=, ")
	var cfg utils.CLIConfig
	if v.Choice("used", 2) == 1 {
		// what was set before does not matter
		cfg.Set("old:a=1,c=2")
	}
	err := cfg.Set(s)
	typ, kvs, ok := parse(s)
	v.Assert((err == nil) == ok, "an option is refused exactly if a parameter is given twice")
	if err != nil || !ok {
		v.Reach("refused")
		return
	}
	v.Observe("type", cfg.ConfigType)
	v.Assert(cfg.ConfigType == typ, "the type of an option is what stands before the colon")
	v.Assert(len(cfg.Params) == len(kvs), "an option has the parameters given")
	for _, e := range kvs {
		v.Assert(cfg.GetStringDefault(e.k, "none") == e.v, "a parameter has the value given")
	}
	v.Assert(cfg.GetStringDefault("c", "none") == "none", "a parameter which is not given has its default")
	b, err := cfg.GetBoolDefault("c", true)
	v.Assert(b && err == nil, "a parameter which is not given has its default")
	n, err := cfg.GetIntDefault("c", 7)
	v.Assert(n == 7 && err == nil, "a parameter which is not given has its default")
	v.Reach("accepted")
}

// Shown: an option as it is shown reads back the same.
func Shown() {
	s := "t" + v.Str("option", 0, v.Bound("characters of an option", 5, 6), "ab:=, ")
	var cfg, again utils.CLIConfig
	if cfg.Set(s) != nil {
		return
	}
	text := cfg.String()
	v.Assert(again.Set(text) == nil, "an option as shown can be read")
	v.Assert(again.ConfigType == cfg.ConfigType && len(again.Params) == len(cfg.Params), "an option as shown reads back the same")
	for k, x := range cfg.Params {
		y, ok := again.Params[k]
		v.Assert(ok && x == y, "an option as shown reads back the same")
	}
	v.Reach("end")
}

// Values: values of parameters are what they say or refused.
func Values() {
	var cfg utils.CLIConfig
	if v.Choice("kind", 2) == 0 {
		s := v.Str("value", 0, v.Bound("characters of a number", 3, 4), "019-+x ")
		v.Assert(cfg.Set("t:k="+s) == nil, "a parameter is accepted")
		n, err := cfg.GetIntDefault("k", 5)
		num, neg := s, false
		if num != "" && (num[0] == '-' || num[0] == '+') {
			neg = num[0] == '-'
			num = num[1:]
		}
		want, ok := 0, num != ""
		for _, c := range []byte(num) {
			ok = ok && c >= '0' && c <= '9'
			want = want*10 + int(c-'0')
		}
		if neg {
			want = -want
		}
		v.Assert((err == nil) == ok, "what is no number is refused")
		if ok {
			v.Assert(err != nil || n == want, "a number is what it says")
			v.Reach("accepted")
			return
		}
		v.Reach("refused")
		return
	}
	s := v.Str("value", 0, 1, "tTfF1") + []string{"rue", "RUE", "alse", "aLsE", "", "x", "rue "}[v.Choice("rest", 7)]
	v.Assert(cfg.Set("t:k="+s) == nil, "a parameter is accepted")
	b, err := cfg.GetBoolDefault("k", false)
	yes, no := strings.EqualFold(s, "true"), strings.EqualFold(s, "false")
	v.Assert((err == nil) == (yes || no), "what is neither true nor false is refused")
	if yes || no {
		v.Assert(b == yes, "a flag is what it says")
		v.Reach("accepted")
	} else {
		v.Reach("refused")
	}
}

// Enums: a value out of a list is accepted in any case of letters and becomes
// the one of the list; others are refused and change nothing.
func Enums() {
	s := v.Str("value", 0, 4, "cCsvVXtT")
	valid := []string{"Text", "CSV", "Csvt"}
	want := ""
	for _, x := range valid {
		if strings.EqualFold(s, x) {
			want = x
		}
	}
	val := "Text"
	e := utils.NewEnum(&val, valid, "kind")
	err := e.Set(s)
	v.Assert((err == nil) == (want != ""), "a value is accepted exactly if it is in the list")
	set := s
	c := utils.NewEnum(&set, valid, "kind")
	err3 := c.Check()
	v.Assert((err3 == nil) == (want != "" || s == ""), "a value set before is accepted exactly if it is in the list")
	if err3 == nil {
		v.Assert(set == want, "a value set before becomes the one of the list")
	} else {
		v.Assert(set == s, "a value which is refused changes nothing")
	}
	list := []string{"Text"}
	l := utils.NewEnumSlice(&list, valid, "kinds")
	err2 := l.Set(s)
	v.Assert((err2 == nil) == (want != ""), "a value is accepted exactly if it is in the list")
	if want == "" {
		v.Assert(val == "Text" && len(list) == 1, "a value which is refused changes nothing")
		v.Reach("refused")
		return
	}
	v.Assert(val == want && e.String() == want, "a value becomes the one of the list")
	v.Assert(len(list) == 2 && list[0] == "Text" && list[1] == want, "a value is added to those before it")
	v.Reach("accepted")
}

// Texts: a text is itself unless it names a file, then what the file holds.
func Texts() {
	content := v.Str("content", 0, 3, "ab\n")
	v.PutFile("f", content)
	s := v.Str("text", 0, 2, "f:/") + []string{"", "file", "file:f", "file:g", "file:", ":f"}[v.Choice("rest", 6)]
	got, err := utils.GetFileOrStr(s)
	switch {
	case s == "file:f":
		v.Assert(err == nil && got == content, "a text naming a file is what the file holds")
		v.Reach("file")
	case strings.HasPrefix(s, "file:"):
		v.Assert(err != nil, "a text naming a missing file is refused")
		v.Reach("missing")
	default:
		v.Assert(err == nil && got == s, "another text is itself")
		v.Reach("text")
	}
}
