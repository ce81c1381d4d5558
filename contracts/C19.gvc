property C19
strict

ghost files []string
ghost reads int                # files that have been read
ghost parsed int               # files of which the statistics are known
ghost content string           # of the last file
# sums over the statistics of all files so far
ghost chars int
ghost words int
ghost internal int
ghost external int
ghost images int
ghost math int
ghost defs int
ghost usages int
ghost minutes int
ghost links arr[string] int    # number of links to this article
ghost linked arr[string] bool  # there is an entry for this article
ghost before arr[string] int   # both without the last file
ghost beforeLinked arr[string] bool
ghost book arr[string] bool    # articles of the book
ghost current *generator.articleStats
ghost json string              # the generated JSON
ghost jsonErr error
ghost reader *bytes.Reader
ghost readerContent string
ghost file util.FileLike
ghost written bool

verify generator.GenerateCombinedStats, generator.generateTxtStatsContent

extern bytes.NewReader(b) (r)
  modifies reader, readerContent
  ensures fresh(r) && reader == r && readerContent == string(b)

spec header() string = "Statistics generated with wiki2book:\n\nGeneral:\n  Number of characters    : " + itoa(chars) + "\n  Number of internal links: " + itoa(internal) + "\n"

spec sums(s *generator.articleStats) bool = s.NumberOfCharacters == chars && s.NumberOfWords == words && s.NumberOfInternalLinks == internal &&
  s.NumberOfExternalLinks == external && s.NumberOfImages == images && s.NumberOfMath == math && s.NumberOfRefDefinitions == defs &&
  s.NumberOfRefUsages == usages && s.EstimatedReadingTimeMinutes == minutes
spec linkSums(m map[string]int) bool = forall x string: (dom(m, x) <==> linked[x]) && (dom(m, x) ==> m[x] == links[x])
spec uncovered(m map[string]int) bool = forall x string: (dom(m, x) <==> linked[x] && !book[x]) && (dom(m, x) ==> m[x] == links[x])
spec someUncovered(m map[string]int) bool = forall x string: dom(m, x) ==> linked[x] && !book[x] && m[x] == links[x]

extern util.Filesystem.ReadFile(fs, path) (b, err)
  requires [reads the statistics of every article once] reads < len(files) && path == files[reads] && parsed == reads
  modifies reads, content
  ensures reads == old(reads) + 1 && (err == nil ==> content == string(b))
extern encoding/json.Unmarshal(data, v) (err)
  requires [reads the statistics of every article once] parsed == reads - 1 && string(data) == content
  requires [into an empty record] deref(as(v, "*generator.articleStats")) == zero("generator.articleStats")
  modifies deref(as(v, "*generator.articleStats")), parsed, chars, words, internal, external, images, math, defs, usages, minutes, links, linked, before, beforeLinked, book, current
  ensures parsed == old(parsed) + 1
  ensures current == as(v, "*generator.articleStats") && before == old(links) && beforeLinked == old(linked)
  ensures chars == old(chars) + current.NumberOfCharacters && words == old(words) + current.NumberOfWords
  ensures internal == old(internal) + current.NumberOfInternalLinks && external == old(external) + current.NumberOfExternalLinks
  ensures images == old(images) + current.NumberOfImages && math == old(math) + current.NumberOfMath
  ensures defs == old(defs) + current.NumberOfRefDefinitions && usages == old(usages) + current.NumberOfRefUsages
  ensures minutes == old(minutes) + current.EstimatedReadingTimeMinutes
  ensures book == upd(old(book), current.ArticleName, true)
  ensures forall x string: (linked[x] <==> beforeLinked[x] || dom(current.InternalLinks, x)) && links[x] == before[x] + ite(dom(current.InternalLinks, x), current.InternalLinks[x], 0)
  ensures current.InternalLinks == nil ==> (forall x string: !dom(current.InternalLinks, x))
  ensures current.InternalLinks == nil || fresh(current.InternalLinks)
extern encoding/json.MarshalIndent(v, p, i) (b, err)
  requires [all articles have been counted] parsed == len(files)
  requires [the counters are the sums over all articles] sums(as(v, "*generator.articleStats"))
  requires [the links are the sums over all articles] linkSums(as(v, "*generator.articleStats").InternalLinks)
  requires [the uncovered links are those to other articles] uncovered(as(v, "*generator.articleStats").UncoveredInternalLinks)
  requires [the most frequent of them are uncovered] someUncovered(as(v, "*generator.articleStats").Top10UncoveredInternalLinks)
  modifies json, jsonErr
  ensures json == string(b) && jsonErr == err
extern util.Filesystem.Create(fs, path) (f, err)
  modifies file
  ensures err == nil ==> f != nil && file == f
extern util.FileLike.Close(f) (err)
extern io.Copy(dst, src) (n, err)
  requires [writes the combined statistics] config.Current.OutputType == "stats-json" ==> jsonErr == nil && dst == file && src == box(reader) && readerContent == json + "\n"
  requires [writes the combined statistics] config.Current.OutputType == "stats-txt" ==> dst == file && src == box(reader) && prefix(readerContent, header())
  modifies written
  ensures err == nil ==> written

func generator.GenerateCombinedStats(statFiles, out) (err)
  noframe
  requires statFiles == files && reads == 0 && parsed == 0 && !written
  requires chars == 0 && words == 0 && internal == 0 && external == 0 && images == 0 && math == 0 && defs == 0 && usages == 0 && minutes == 0
  requires links == constArr(string, int, 0) && linked == constArr(string, bool, false) && book == constArr(string, bool, false)
  modifies reads, parsed, content, chars, words, internal, external, images, math, defs, usages, minutes, links, linked, before, beforeLinked, book, current, json, jsonErr, reader, readerContent, file, written
  ensures [success means that they have been written] err == nil ==> written
  loop all
    invariant [maps] combinedStats.InternalLinks != combinedStats.UncoveredInternalLinks && combinedStats.InternalLinks != combinedStats.Top10UncoveredInternalLinks && combinedStats.UncoveredInternalLinks != combinedStats.Top10UncoveredInternalLinks
    invariant [maps exist] combinedStats.InternalLinks != nil && combinedStats.UncoveredInternalLinks != nil && combinedStats.Top10UncoveredInternalLinks != nil
    invariant [allocated] combinedStats.InternalLinks < $alloc && combinedStats.UncoveredInternalLinks < $alloc && combinedStats.Top10UncoveredInternalLinks < $alloc && combinedStats < $alloc
    invariant [counters] sums(combinedStats)
    invariant [articles] forall x string: dom(articles, x) <==> book[x]
    invariant [no links] forall x string: !linked[x] ==> links[x] == 0
  loop 1
    invariant [files] parsed == reads && reads == $idx
    invariant [links] linkSums(combinedStats.InternalLinks)
    invariant [nothing uncovered] forall x string: !dom(combinedStats.UncoveredInternalLinks, x)
    invariant [top empty] forall x string: !dom(combinedStats.Top10UncoveredInternalLinks, x)
  loop 2
    invariant [stats] current == stats && stats != combinedStats && stats.InternalLinks != combinedStats.InternalLinks && stats.InternalLinks != combinedStats.UncoveredInternalLinks && stats.InternalLinks != combinedStats.Top10UncoveredInternalLinks
    invariant [visited] forall x string: $visited[x] ==> dom(stats.InternalLinks, x)
    invariant [links so far] forall x string: (dom(combinedStats.InternalLinks, x) <==> beforeLinked[x] || $visited[x]) && (dom(combinedStats.InternalLinks, x) ==> combinedStats.InternalLinks[x] == before[x] + ite($visited[x], current.InternalLinks[x], 0))
  loop 3
    invariant [visited] forall x string: $visited[x] ==> linked[x]
    invariant [links] linkSums(combinedStats.InternalLinks)
    invariant [uncovered so far] forall x string: (dom(combinedStats.UncoveredInternalLinks, x) <==> $visited[x] && !book[x]) && (dom(combinedStats.UncoveredInternalLinks, x) ==> combinedStats.UncoveredInternalLinks[x] == links[x])
    invariant [list] forall k in 0 .. len(uncoveredArticles): linked[uncoveredArticles[k]] && !book[uncoveredArticles[k]]
    invariant [top empty] forall x string: !dom(combinedStats.Top10UncoveredInternalLinks, x)
  loop 4
    invariant [links] linkSums(combinedStats.InternalLinks)
    invariant [uncovered] uncovered(combinedStats.UncoveredInternalLinks)
    invariant [list] forall k in 0 .. len(uncoveredArticles): linked[uncoveredArticles[k]] && !book[uncoveredArticles[k]]
    invariant [top] someUncovered(combinedStats.Top10UncoveredInternalLinks)

func generator.generateTxtStatsContent(articles, s) (b, err)
  requires [all articles have been counted] parsed == len(files)
  requires [the counters are the sums over all articles] sums(s)
  requires [the links are the sums over all articles] linkSums(s.InternalLinks)
  requires [the uncovered links are those to other articles] uncovered(s.UncoveredInternalLinks)
  ensures [the text begins with the sums] err == nil ==> prefix(string(b), header())
  loop all
    invariant [header] prefix(result, header())
