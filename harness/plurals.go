package main

import (
	"fmt"
	"strings"

	"golang.org/x/text/language"

	"verifharness/fw"
	"verifharness/oracle"
)

// resolveRule walks from a tag to its parents, then to the bases, and returns the key found in the table.
func resolveRule(tag language.Tag, has func(string) bool) (string, bool) {
	for n := tag; !n.IsRoot(); n = n.Parent() {
		if has(n.String()) {
			return n.String(), true
		}
	}
	for n := tag; !n.IsRoot(); n = n.Parent() {
		if b, conf := n.Base(); conf >= language.High && has(b.String()) {
			return b.String(), true
		}
	}
	return "en", false
}

func cldrFor(tag language.Tag) (*oracle.CLDRSet, bool) {
	k, ok := resolveRule(tag, func(s string) bool { return oracle.CLDR[s] != nil })
	return oracle.CLDR[k], ok
}

func gettextFor(tag language.Tag) (*oracle.GettextRule, bool) {
	k, ok := resolveRule(tag, func(s string) bool { return oracle.Gettext[s] != nil })
	return oracle.Gettext[k], ok
}

var (
	cldrLangs    = fw.SortedKeys(oracle.CLDR)
	gettextLangs = fw.SortedKeys(oracle.Gettext)
	regions      = []string{"DE", "US", "AT", "CH", "BR", "PT", "AO", "MZ", "MX", "419", "001", "RS", "ME", "MD", "GB", "AU", "CN", "TW", "HK", "IN", "CA", "ES", "AR", "EG", "RU", "NO", "150"}
	scripts      = []string{"Latn", "Cyrl", "Arab", "Hans", "Hant", "Deva"}
	noRuleLangs  = []string{"la", "x-art", "und", "tlh", "grc", "zza", "qaa", "art-x-private", "got", "cop", "sux", "und-US", "und-Latn"}
)

// randTag is a tag of one of the languages, mostly with a region, script or extension.
func randTag(t *fw.T, langs []string, idx int) language.Tag {
	l := langs[idx%len(langs)]
	if idx >= len(langs) {
		switch t.IntN(6) {
		case 0:
			l += "-" + fw.Pick(t, scripts)
		case 1:
			l += "-" + fw.Pick(t, scripts) + "-" + fw.Pick(t, regions)
		case 2:
			l += "-u-co-phonebk"
		case 3:
			l = fw.Pick(t, noRuleLangs)
		default:
			l += "-" + fw.Pick(t, regions)
		}
	}
	tag, err := language.Parse(l)
	if err != nil {
		// a combination x/text does not know (two scripts, a region twice)
		tag = language.Make(langs[idx%len(langs)])
	}
	return tag
}

// decimalText writes a number with at most 15 digits.
func decimalText(t *fw.T) string {
	var s string
	switch t.IntN(8) {
	case 0, 1:
		s = fmt.Sprint(t.IntN(30))
	case 2:
		s = fmt.Sprint(t.IntN(220))
	case 3:
		k := t.IntN(13)
		s = fmt.Sprint(1+t.IntN(9)) + strings.Repeat("0", k)
	case 4:
		k := t.IntN(9)
		s = fmt.Sprint(1+t.IntN(99)) + strings.Repeat("0", k) + fmt.Sprintf("%02d", t.IntN(100))
	case 5:
		s = fmt.Sprint(t.Int64N(1_000_000_000_000_000))
	case 6:
		s = "0"
	default:
		s = fmt.Sprint(t.IntN(100000))
	}
	if t.Chance(2) && len(s) < 13 {
		k := 1 + t.IntN(min(4, 15-len(s)))
		f := make([]byte, k)
		for i := range f {
			f[i] = "0000123451929"[t.IntN(13)]
		}
		s += "." + string(f)
		if t.Chance(12) && len(s) <= 4 {
			s += strings.Repeat("0", t.IntN(9)) + fw.Pick(t, []string{"", "1", "5"})
		}
	}
	if t.Chance(6) {
		max := 15 - len(s)
		if max > 0 {
			s += fmt.Sprintf("c%d", t.IntN(min(max+1, 10)))
		}
	}
	if t.Chance(8) {
		s = fw.Pick(t, []string{"-", "+", "-"}) + s
	}
	return s
}
