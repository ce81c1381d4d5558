package generator

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"testing"
	"wiki2book/config"
	"wiki2book/util"
)

func TestVerifC19(t *testing.T) {
	v := verifStart(t)
	oldFs, oldConfig := util.CurrentFilesystem, *config.Current
	defer func() { util.CurrentFilesystem = oldFs; *config.Current = oldConfig }()
	for v.more(3000) {
		names := []string{"A", "B", "b", "Ä", "A b", "C/D", "", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N"}
		content := map[string][]byte{}
		var files []string
		want := articleStats{}
		links := map[string]int{}
		book := map[string]bool{}
		desc := ""
		failing := -1
		big := v.rnd.Intn(4) == 0
		for i := v.rnd.Intn(5); i >= 0; i-- {
			s := articleStats{ArticleName: v.pick(names...), NumberOfCharacters: v.rnd.Intn(50), NumberOfWords: v.rnd.Intn(50), NumberOfInternalLinks: v.rnd.Intn(9),
				NumberOfExternalLinks: v.rnd.Intn(9), NumberOfImages: v.rnd.Intn(9), NumberOfMath: v.rnd.Intn(9), NumberOfRefDefinitions: v.rnd.Intn(9),
				NumberOfRefUsages: v.rnd.Intn(9), EstimatedReadingTimeMinutes: v.rnd.Intn(9)}
			if v.rnd.Intn(5) != 0 {
				s.InternalLinks = map[string]int{}
			}
			n := v.rnd.Intn(4)
			if big {
				n += 12
			}
			for ; n > 0 && s.InternalLinks != nil; n-- {
				s.InternalLinks[v.pick(names...)] = v.rnd.Intn(7)
			}
			b, _ := json.Marshal(s)
			name := fmt.Sprintf("stats-%d.json", len(files))
			content[name] = b
			files = append(files, name)
			desc += string(b) + " "
			want.NumberOfCharacters += s.NumberOfCharacters
			want.NumberOfWords += s.NumberOfWords
			want.NumberOfInternalLinks += s.NumberOfInternalLinks
			want.NumberOfExternalLinks += s.NumberOfExternalLinks
			want.NumberOfImages += s.NumberOfImages
			want.NumberOfMath += s.NumberOfMath
			want.NumberOfRefDefinitions += s.NumberOfRefDefinitions
			want.NumberOfRefUsages += s.NumberOfRefUsages
			want.EstimatedReadingTimeMinutes += s.EstimatedReadingTimeMinutes
			for k, n := range s.InternalLinks {
				links[k] += n
			}
			book[s.ArticleName] = true
		}
		if v.rnd.Intn(10) == 0 {
			failing = v.rnd.Intn(len(files))
		}
		var out *util.MockFile
		fs := util.NewDefaultMockFilesystem()
		fs.ReadFileFunc = func(name string) ([]byte, error) {
			if failing >= 0 && name == files[failing] {
				return nil, os.ErrPermission
			}
			return content[name], nil
		}
		fs.CreateFunc = func(name string) (util.FileLike, error) { out = util.NewMockFile(name); return out, nil }
		util.CurrentFilesystem = fs
		config.Current.OutputType = v.pick(config.OutputTypeStatsJson, config.OutputTypeStatsJson, config.OutputTypeStatsTxt)
		uncovered := map[string]int{}
		for k, n := range links {
			if !book[k] {
				uncovered[k] = n
			}
		}
		desc = config.Current.OutputType + " of " + desc
		v.try(desc, func() {
			err := GenerateCombinedStats(files, "out")
			if (err != nil) != (failing >= 0) {
				v.fail("%s: error is %v", desc, err)
				return
			}
			if err != nil {
				return
			}
			if config.Current.OutputType == config.OutputTypeStatsTxt {
				text := string(out.WrittenBytes)
				if !strings.HasPrefix(text, fmt.Sprintf("Statistics generated with wiki2book:\n\nGeneral:\n  Number of characters    : %d\n  Number of internal links: %d\n", want.NumberOfCharacters, want.NumberOfInternalLinks)) {
					v.fail("%s: wrong sums in %s", desc, text)
				}
				list := text[strings.LastIndex(text, "Top 20"):]
				for k := range links {
					line := fmt.Sprintf("\n  %s (%d)\n", k, uncovered[k])
					if has := strings.Contains(list, line); has && book[k] || !has && !book[k] && len(uncovered) <= 20 {
						v.fail("%s: uncovered link %q in %s", desc, k, text)
					}
				}
				return
			}
			got := articleStats{}
			if err := json.Unmarshal(out.WrittenBytes, &got); err != nil {
				v.fail("%s: wrote %q", desc, out.WrittenBytes)
				return
			}
			top := got.Top10UncoveredInternalLinks
			if !reflect.DeepEqual(got.InternalLinks, links) || !reflect.DeepEqual(got.UncoveredInternalLinks, uncovered) {
				v.fail("%s: links %v, uncovered %v instead of %v, %v", desc, got.InternalLinks, got.UncoveredInternalLinks, links, uncovered)
			}
			if len(top) != min(10, len(uncovered)) {
				v.fail("%s: %d most frequent uncovered links of %d", desc, len(top), len(uncovered))
			}
			for k, n := range top {
				if c, ok := uncovered[k]; !ok || c != n {
					v.fail("%s: %q with %d links is no uncovered article", desc, k, n)
				}
				for k2, n2 := range uncovered {
					if _, in := top[k2]; !in && n2 > n {
						v.fail("%s: %q has more links than %q", desc, k2, k)
					}
				}
			}
			got.InternalLinks, got.UncoveredInternalLinks, got.Top10UncoveredInternalLinks = nil, nil, nil
			if !reflect.DeepEqual(got, want) {
				v.fail("%s: sums are %+v instead of %+v", desc, got, want)
			}
		})
	}
}
