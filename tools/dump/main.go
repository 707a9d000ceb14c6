// Dumps the locale tables of the pinned tree, as raw material of the frozen corpora.
package main

import (
	"encoding/json"
	"os"

	"github.com/markusmobius/go-dateparser/internal/data"
	"github.com/markusmobius/go-dateparser/internal/timezone"
)

type L struct {
	Name, DateOrder string
	NoWordSpacing   bool
	Order           int
	Translations    map[string][]string
	RelativeType    map[string]string
	Rx              [][2]string
	Simpl           [][2]string
}

func main() {
	_ = timezone.WordIsTz
	out := []L{}
	for name, order := range data.LocaleOrder {
		ld, ok := data.GetLocaleData(name)
		if !ok {
			continue
		}
		l := L{Name: name, DateOrder: ld.DateOrder, NoWordSpacing: ld.NoWordSpacing, Order: order, Translations: ld.Translations, RelativeType: ld.RelativeType}
		for _, r := range ld.RelativeTypeRegexes {
			l.Rx = append(l.Rx, [2]string{r.Rx.String(), r.Replacement})
		}
		for _, r := range ld.Simplifications {
			l.Simpl = append(l.Simpl, [2]string{r.Rx.String(), r.Replacement})
		}
		out = append(out, l)
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"locales": out, "langs": data.LanguageOrder})
}
