package main

import (
	"github.com/vorlif/spreak/humanize"
	af "github.com/vorlif/spreak/humanize/locale/af"
	ar "github.com/vorlif/spreak/humanize/locale/ar"
	arDZ "github.com/vorlif/spreak/humanize/locale/arDZ"
	ast "github.com/vorlif/spreak/humanize/locale/ast"
	az "github.com/vorlif/spreak/humanize/locale/az"
	be "github.com/vorlif/spreak/humanize/locale/be"
	bg "github.com/vorlif/spreak/humanize/locale/bg"
	bn "github.com/vorlif/spreak/humanize/locale/bn"
	br "github.com/vorlif/spreak/humanize/locale/br"
	bs "github.com/vorlif/spreak/humanize/locale/bs"
	ca "github.com/vorlif/spreak/humanize/locale/ca"
	ckb "github.com/vorlif/spreak/humanize/locale/ckb"
	cs "github.com/vorlif/spreak/humanize/locale/cs"
	cy "github.com/vorlif/spreak/humanize/locale/cy"
	da "github.com/vorlif/spreak/humanize/locale/da"
	de "github.com/vorlif/spreak/humanize/locale/de"
	dsb "github.com/vorlif/spreak/humanize/locale/dsb"
	el "github.com/vorlif/spreak/humanize/locale/el"
	enAU "github.com/vorlif/spreak/humanize/locale/enAU"
	enGB "github.com/vorlif/spreak/humanize/locale/enGB"
	eo "github.com/vorlif/spreak/humanize/locale/eo"
	es "github.com/vorlif/spreak/humanize/locale/es"
	esAR "github.com/vorlif/spreak/humanize/locale/esAR"
	esCO "github.com/vorlif/spreak/humanize/locale/esCO"
	esMX "github.com/vorlif/spreak/humanize/locale/esMX"
	esVE "github.com/vorlif/spreak/humanize/locale/esVE"
	et "github.com/vorlif/spreak/humanize/locale/et"
	eu "github.com/vorlif/spreak/humanize/locale/eu"
	fa "github.com/vorlif/spreak/humanize/locale/fa"
	fi "github.com/vorlif/spreak/humanize/locale/fi"
	fr "github.com/vorlif/spreak/humanize/locale/fr"
	fy "github.com/vorlif/spreak/humanize/locale/fy"
	ga "github.com/vorlif/spreak/humanize/locale/ga"
	gd "github.com/vorlif/spreak/humanize/locale/gd"
	gl "github.com/vorlif/spreak/humanize/locale/gl"
	he "github.com/vorlif/spreak/humanize/locale/he"
	hi "github.com/vorlif/spreak/humanize/locale/hi"
	hr "github.com/vorlif/spreak/humanize/locale/hr"
	hsb "github.com/vorlif/spreak/humanize/locale/hsb"
	hu "github.com/vorlif/spreak/humanize/locale/hu"
	hy "github.com/vorlif/spreak/humanize/locale/hy"
	ia "github.com/vorlif/spreak/humanize/locale/ia"
	id "github.com/vorlif/spreak/humanize/locale/id"
	ig "github.com/vorlif/spreak/humanize/locale/ig"
	io "github.com/vorlif/spreak/humanize/locale/io"
	is "github.com/vorlif/spreak/humanize/locale/is"
	it "github.com/vorlif/spreak/humanize/locale/it"
	ja "github.com/vorlif/spreak/humanize/locale/ja"
	ka "github.com/vorlif/spreak/humanize/locale/ka"
	kab "github.com/vorlif/spreak/humanize/locale/kab"
	kk "github.com/vorlif/spreak/humanize/locale/kk"
	km "github.com/vorlif/spreak/humanize/locale/km"
	kn "github.com/vorlif/spreak/humanize/locale/kn"
	ko "github.com/vorlif/spreak/humanize/locale/ko"
	ky "github.com/vorlif/spreak/humanize/locale/ky"
	lb "github.com/vorlif/spreak/humanize/locale/lb"
	lt "github.com/vorlif/spreak/humanize/locale/lt"
	lv "github.com/vorlif/spreak/humanize/locale/lv"
	mk "github.com/vorlif/spreak/humanize/locale/mk"
	ml "github.com/vorlif/spreak/humanize/locale/ml"
	mn "github.com/vorlif/spreak/humanize/locale/mn"
	mr "github.com/vorlif/spreak/humanize/locale/mr"
	ms "github.com/vorlif/spreak/humanize/locale/ms"
	my "github.com/vorlif/spreak/humanize/locale/my"
	nb "github.com/vorlif/spreak/humanize/locale/nb"
	ne "github.com/vorlif/spreak/humanize/locale/ne"
	nl "github.com/vorlif/spreak/humanize/locale/nl"
	nn "github.com/vorlif/spreak/humanize/locale/nn"
	os "github.com/vorlif/spreak/humanize/locale/os"
	pa "github.com/vorlif/spreak/humanize/locale/pa"
	pl "github.com/vorlif/spreak/humanize/locale/pl"
	pt "github.com/vorlif/spreak/humanize/locale/pt"
	ptBR "github.com/vorlif/spreak/humanize/locale/ptBR"
	ro "github.com/vorlif/spreak/humanize/locale/ro"
	ru "github.com/vorlif/spreak/humanize/locale/ru"
	sk "github.com/vorlif/spreak/humanize/locale/sk"
	sl "github.com/vorlif/spreak/humanize/locale/sl"
	sq "github.com/vorlif/spreak/humanize/locale/sq"
	sr "github.com/vorlif/spreak/humanize/locale/sr"
	srLatn "github.com/vorlif/spreak/humanize/locale/srLatn"
	sv "github.com/vorlif/spreak/humanize/locale/sv"
	sw "github.com/vorlif/spreak/humanize/locale/sw"
	ta "github.com/vorlif/spreak/humanize/locale/ta"
	te "github.com/vorlif/spreak/humanize/locale/te"
	tg "github.com/vorlif/spreak/humanize/locale/tg"
	th "github.com/vorlif/spreak/humanize/locale/th"
	tk "github.com/vorlif/spreak/humanize/locale/tk"
	tr "github.com/vorlif/spreak/humanize/locale/tr"
	tt "github.com/vorlif/spreak/humanize/locale/tt"
	udm "github.com/vorlif/spreak/humanize/locale/udm"
	ug "github.com/vorlif/spreak/humanize/locale/ug"
	uk "github.com/vorlif/spreak/humanize/locale/uk"
	ur "github.com/vorlif/spreak/humanize/locale/ur"
	uz "github.com/vorlif/spreak/humanize/locale/uz"
	vi "github.com/vorlif/spreak/humanize/locale/vi"
	zhHans "github.com/vorlif/spreak/humanize/locale/zhHans"
	zhHant "github.com/vorlif/spreak/humanize/locale/zhHant"
)

// localePackages are the language packages of humanize.
var localePackages = map[string]func() *humanize.LocaleData{
	"af":     af.New,
	"ar":     ar.New,
	"arDZ":   arDZ.New,
	"ast":    ast.New,
	"az":     az.New,
	"be":     be.New,
	"bg":     bg.New,
	"bn":     bn.New,
	"br":     br.New,
	"bs":     bs.New,
	"ca":     ca.New,
	"ckb":    ckb.New,
	"cs":     cs.New,
	"cy":     cy.New,
	"da":     da.New,
	"de":     de.New,
	"dsb":    dsb.New,
	"el":     el.New,
	"enAU":   enAU.New,
	"enGB":   enGB.New,
	"eo":     eo.New,
	"es":     es.New,
	"esAR":   esAR.New,
	"esCO":   esCO.New,
	"esMX":   esMX.New,
	"esVE":   esVE.New,
	"et":     et.New,
	"eu":     eu.New,
	"fa":     fa.New,
	"fi":     fi.New,
	"fr":     fr.New,
	"fy":     fy.New,
	"ga":     ga.New,
	"gd":     gd.New,
	"gl":     gl.New,
	"he":     he.New,
	"hi":     hi.New,
	"hr":     hr.New,
	"hsb":    hsb.New,
	"hu":     hu.New,
	"hy":     hy.New,
	"ia":     ia.New,
	"id":     id.New,
	"ig":     ig.New,
	"io":     io.New,
	"is":     is.New,
	"it":     it.New,
	"ja":     ja.New,
	"ka":     ka.New,
	"kab":    kab.New,
	"kk":     kk.New,
	"km":     km.New,
	"kn":     kn.New,
	"ko":     ko.New,
	"ky":     ky.New,
	"lb":     lb.New,
	"lt":     lt.New,
	"lv":     lv.New,
	"mk":     mk.New,
	"ml":     ml.New,
	"mn":     mn.New,
	"mr":     mr.New,
	"ms":     ms.New,
	"my":     my.New,
	"nb":     nb.New,
	"ne":     ne.New,
	"nl":     nl.New,
	"nn":     nn.New,
	"os":     os.New,
	"pa":     pa.New,
	"pl":     pl.New,
	"pt":     pt.New,
	"ptBR":   ptBR.New,
	"ro":     ro.New,
	"ru":     ru.New,
	"sk":     sk.New,
	"sl":     sl.New,
	"sq":     sq.New,
	"sr":     sr.New,
	"srLatn": srLatn.New,
	"sv":     sv.New,
	"sw":     sw.New,
	"ta":     ta.New,
	"te":     te.New,
	"tg":     tg.New,
	"th":     th.New,
	"tk":     tk.New,
	"tr":     tr.New,
	"tt":     tt.New,
	"udm":    udm.New,
	"ug":     ug.New,
	"uk":     uk.New,
	"ur":     ur.New,
	"uz":     uz.New,
	"vi":     vi.New,
	"zhHans": zhHans.New,
	"zhHant": zhHant.New,
}
