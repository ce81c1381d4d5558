package config

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
)

var c10Paths = map[string]bool{"CacheDir": true, "StyleFile": true, "CoverImage": true, "PandocDataDir": true, "FontFiles": true}

func c10Abs(s string) string {
	if s == "" || filepath.IsAbs(s) {
		return s
	}
	wd, _ := os.Getwd()
	return filepath.Join(wd, s)
}

// valid values of each setting
func c10Value(v *verifT, f reflect.StructField, cur reflect.Value) interface{} {
	switch f.Name {
	case "OutputType":
		return v.pick("epub2", "epub3", "stats-json", "stats-txt")
	case "OutputDriver":
		return v.pick("pandoc", "internal")
	case "CacheEvictionStrategy":
		return v.pick("none", "lru", "largest")
	case "MathConverter":
		return v.pick("none", "wikimedia", "template")
	case "TocDepth":
		return v.rnd.Intn(7)
	case "PandocExecutable":
		return v.pick("pandoc", "/usr/bin/pandoc", "./x/pandoc", "pandoc2", "tools/pandoc")
	}
	if strings.HasPrefix(f.Name, "CommandTemplate") {
		l := []string{"a {INPUT} {OUTPUT}", "b {OUTPUT} {INPUT}"}
		if f.Name != "CommandTemplateMathSvgToPng" {
			l = append(l, "")
		}
		return v.pick(l...)
	}
	switch f.Type.Kind() {
	case reflect.Bool:
		return v.rnd.Intn(2) == 0
	case reflect.Int, reflect.Int64:
		n := 1 + v.rnd.Intn(5)
		if v.rnd.Intn(3) == 0 {
			n = 40_000 + v.rnd.Intn(3)
		}
		return reflect.ValueOf(n).Convert(f.Type).Interface()
	case reflect.String:
		if c10Paths[f.Name] {
			l := []string{"rel/x", "/abs/y", "./z", "../w", "x"}
			if f.Name != "CacheDir" {
				l = append(l, "")
			}
			return v.pick(l...)
		}
		return v.pick("", "foo", "bar.org", "x")
	case reflect.Slice:
		l := []string{}
		if cur.Len() > 0 && v.rnd.Intn(2) == 0 {
			for i := 0; i < cur.Len(); i++ {
				l = append(l, cur.Index(i).String())
			}
			switch v.rnd.Intn(3) {
			case 0:
				l[v.rnd.Intn(len(l))] = l[0]
			case 1:
				v.rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			case 2:
				l = l[1:]
			}
			return l
		}
		for i := v.rnd.Intn(4); i > 0; i-- {
			l = append(l, v.pick("a", "b", "dir/c", "/abs/d"))
		}
		return l
	}
	return cur.Interface()
}

func c10Same(name string, a, b interface{}) bool {
	x, ok := a.([]string)
	if !ok {
		return a == b
	}
	y := b.([]string)
	if name != "WikipediaImageArticleHosts" {
		x = append([]string{}, x...)
		y = append([]string{}, y...)
		sort.Strings(x)
		sort.Strings(y)
	}
	return len(x) == len(y) && (len(x) == 0 || reflect.DeepEqual(x, y))
}

func TestVerifC10(t *testing.T) {
	v := verifStart(t)
	defaultValidationErrorHandler = func(err error) {}
	oldCur := Current
	defer func() { Current = oldCur }()
	typ := reflect.TypeOf(Configuration{})
	copyVal := func(x interface{}) reflect.Value {
		if l, ok := x.([]string); ok {
			return reflect.ValueOf(append([]string{}, l...))
		}
		return reflect.ValueOf(x)
	}
	for v.more(20000) {
		Current = NewDefaultConfig()
		c := NewDefaultConfig()
		def := NewDefaultConfig()
		desc := ""
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			if v.rnd.Intn(3) == 0 {
				x := c10Value(v, f, reflect.ValueOf(def).Elem().Field(i))
				reflect.ValueOf(Current).Elem().Field(i).Set(copyVal(x))
				desc += fmt.Sprintf(" %s currently %#v;", f.Name, x)
			}
			if v.rnd.Intn(6) == 0 {
				x := c10Value(v, f, reflect.ValueOf(def).Elem().Field(i))
				reflect.ValueOf(c).Elem().Field(i).Set(copyVal(x))
				desc += fmt.Sprintf(" %s new %#v;", f.Name, x)
			}
		}
		before := *Current
		given := *c
		beforeFonts := append([]string{}, Current.FontFiles...)
		givenFonts := append([]string{}, c.FontFiles...)
		before.FontFiles = beforeFonts
		given.FontFiles = givenFonts
		v.try("merging"+desc, func() {
			MergeIntoCurrentConfig(c)
			for i := 0; i < typ.NumField(); i++ {
				f := typ.Field(i)
				d := reflect.ValueOf(def).Elem().Field(i).Interface()
				g := reflect.ValueOf(given).Field(i).Interface()
				want := reflect.ValueOf(before).Field(i).Interface()
				changed := !c10Same(f.Name, g, d)
				if changed {
					want = g
				}
				if c10Paths[f.Name] {
					if s, ok := want.(string); ok {
						want = c10Abs(s)
					} else {
						var l []string
						for _, x := range want.([]string) {
							l = append(l, c10Abs(x))
						}
						want = l
					}
				}
				if f.Name == "PandocExecutable" && changed && strings.Contains(g.(string), "/") {
					want = c10Abs(g.(string))
				}
				got := reflect.ValueOf(*Current).Field(i).Interface()
				eq := false
				if x, ok := want.([]string); ok {
					y := got.([]string)
					eq = len(x) == len(y) && (len(x) == 0 || reflect.DeepEqual(x, y))
				} else {
					eq = reflect.DeepEqual(want, got)
				}
				if !eq {
					v.fail("setting %s is %#v instead of %#v:%s", f.Name, got, want, desc)
				}
			}
		})
	}
}
