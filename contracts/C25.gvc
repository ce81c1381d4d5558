property C25
use strings

pure extern strings.TrimSpace(s) (r) as trim
pure extern strings.Split(s, sep) (r) as split
pure extern strings.SplitN(s, sep, n) (r) as splitN
pure extern strings.ReplaceAll(s, x, y) (r) as replaceAll
axiom splitTwo(s string, sep string)
  note "SplitN(s, sep, 2) cuts s at the first sep"
  requires len(sep) == 1
  ensures ite(contains(s, sep), len(splitN(s, sep, 2)) == 2 && splitN(s, sep, 2)[0] == s[:indexOf(s, sep, 0)] && splitN(s, sep, 2)[1] == s[indexOf(s, sep, 0) + 1:], len(splitN(s, sep, 2)) == 1 && splitN(s, sep, 2)[0] == s)
  trigger splitN(s, sep, 2)
pure extern regexp.Regexp.FindAllStringSubmatch(re, s, n) (r) as allMatches
pure extern regexp.Regexp.FindStringSubmatch(re, s) (r) as firstMatch
axiom matchesHaveText(re *regexp.Regexp, s string, n int)
  ensures forall k in 0 .. len(allMatches(re, s, n)): len(allMatches(re, s, n)[k]) >= 1
  trigger allMatches(re, s, n)

# The text of an entry and its attributes.
opaque spec entryText(c string) string = ite(contains(c, "|"), c[indexOf(c, "|", 0) + 1:], c)
rec spec spans(ms [][]string, k int) []string = ite(k <= 0, emptySeq("string"), spans(ms, k - 1) + seqOf(ms[k-1][0]))
spec beforeBar(c string) string = trim(c[:indexOf(c, "|", 0)])
spec spansOf(c string) []string = spans(allMatches(parser.tableRowAndColspanRegex, beforeBar(c), -1), len(allMatches(parser.tableRowAndColspanRegex, beforeBar(c), -1)))
spec alignOf(c string) []string = ite(len(firstMatch(parser.tableTextAlignRegex, beforeBar(c))) > 0, seqOf("style=\"" + firstMatch(parser.tableTextAlignRegex, beforeBar(c))[0] + "\""), emptySeq("string"))
opaque spec attributes(c string) parser.TableColAttributeToken = mkstruct("parser.TableColAttributeToken", nil, ite(contains(c, "|"), spansOf(c) + alignOf(c), emptySeq("string")))

# Which lines start something.
opaque spec cellStart(l string) bool = prefix(trim(l), "|") || prefix(trim(l), "!")
opaque spec rowStops(l string) bool = prefix(trim(l), "|-") || prefix(trim(l), "|+") || prefix(trim(l), "|}")
# The lines i until cellEnd(ls, i + 1) are one cell.
rec spec cellEnd(ls []string, j int) int = ite(j >= len(ls) || cellStart(ls[j]), j, cellEnd(ls, j + 1))
# Its first line has no marker anymore.
opaque spec firstLine(l string) string = trim(ite(prefix(trim(l), "|") || prefix(trim(l), "!"), trim(l)[1:], trim(l)))
rec spec cellText(ls []string, i int, e int) string = ite(e <= i + 1, firstLine(ls[i]), cellText(ls, i, e - 1) + "\n" + trim(ls[e-1]))
rec spec captionText(ls []string, i int, e int) string = ite(e <= i + 1, trim(ls[i])[2:], captionText(ls, i, e - 1) + "\n" + trim(ls[e-1]))

# given: the texts of the entries in their order; textOf(n): what became of the n-th one
ghost given string
ghost count int
spec textOf(n int) string

# The row that starts with line i: its end, its texts, its size and its cells, the first one of which is the n-th entry.
opaque spec cellOf(l string, text string, n int) parser.TableColToken = mkstruct("parser.TableColToken", nil, attributes(text), trim(textOf(n)), prefix(trim(l), "!"))
rec spec rowEnd(ls []string, i int) int = ite(i >= len(ls) || rowStops(ls[i]), i, rowEnd(ls, cellEnd(ls, i + 1)))
rec spec rowTexts(ls []string, i int) string = ite(i >= len(ls) || rowStops(ls[i]), "", "\n" + entryText(cellText(ls, i, cellEnd(ls, i + 1))) + rowTexts(ls, cellEnd(ls, i + 1)))
rec spec rowSize(ls []string, i int) int = ite(i >= len(ls) || rowStops(ls[i]), 0, 1 + rowSize(ls, cellEnd(ls, i + 1)))
rec spec rowCells(ls []string, i int, n int) []parser.TableColToken = ite(i >= len(ls) || rowStops(ls[i]), emptySeq("parser.TableColToken"),
  seqOf(cellOf(ls[i], cellText(ls, i, cellEnd(ls, i + 1)), n)) + rowCells(ls, cellEnd(ls, i + 1), n + 1))
opaque spec row(ls []string, i int, n int) parser.TableRowToken = mkstruct("parser.TableRowToken", nil, rowCells(ls, i, n))

# The table from line i on.
opaque spec isCaption(l string) bool = prefix(trim(l), "|+")
opaque spec isRow(l string) bool = prefix(trim(l), "|-")
opaque spec isEnd(l string) bool = prefix(trim(l), "|}")
opaque spec filled(l string) bool = prefix(l, "!") || prefix(l, "|")
# the line in which the row begins that starts with line i, or -1
opaque spec rowAt(ls []string, i int) int = ite(isCaption(ls[i]) || isEnd(ls[i]), -1, ite(isRow(ls[i]), ite(i + 1 < len(ls) && filled(ls[i+1]), i + 1, -1), ite(cellStart(ls[i]), i, -1)))
opaque spec ends(ls []string, i int) bool = i >= len(ls) || isEnd(ls[i]) || isRow(ls[i]) && i + 1 >= len(ls)
rec spec tableRows(ls []string, i int, n int) []parser.TableRowToken = ite(ends(ls, i), emptySeq("parser.TableRowToken"),
  ite(isCaption(ls[i]), tableRows(ls, cellEnd(ls, i + 1), n + 1),
  ite(rowAt(ls, i) >= 0, seqOf(row(ls, rowAt(ls, i), n)) + tableRows(ls, rowEnd(ls, rowAt(ls, i)), n + rowSize(ls, rowAt(ls, i))),
  tableRows(ls, i + 1, n))))
rec spec tableTexts(ls []string, i int) string = ite(ends(ls, i), "",
  ite(isCaption(ls[i]), "\n" + entryText(captionText(ls, i, cellEnd(ls, i + 1))) + tableTexts(ls, cellEnd(ls, i + 1)),
  ite(rowAt(ls, i) >= 0, rowTexts(ls, rowAt(ls, i)) + tableTexts(ls, rowEnd(ls, rowAt(ls, i))),
  tableTexts(ls, i + 1))))
rec spec tableCaption(ls []string, i int, n int, c string) string = ite(ends(ls, i), c,
  ite(isCaption(ls[i]), tableCaption(ls, cellEnd(ls, i + 1), n + 1, trim(textOf(n))),
  ite(rowAt(ls, i) >= 0, tableCaption(ls, rowEnd(ls, rowAt(ls, i)), n + rowSize(ls, rowAt(ls, i)), c),
  tableCaption(ls, i + 1, n, c))))
spec tableLines(c string) []string = split(replaceAll(replaceAll(c, "||", "\n|"), "!!", "\n!"), "\n")

verify parser.Tokenizer.tokenizeTableRow, parser.Tokenizer.tokenizeTableEntry, parser.Tokenizer.tokenizeTableCaption, parser.Tokenizer.tokenizeTable

extern parser.Tokenizer.tokenizeContent(t, content) (r)
  note "given, count and textOf stand for the entries of this table, not for those of tables within its entries"
  modifies t.tokenCounter, t.images, mapof(t.tokenMap)
  set given := given + "\n" + content
  set count := count + 1
  ensures r == textOf(old(count))

func parser.Tokenizer.tokenizeTableEntry(t, content) (r, a)
  modifies t.tokenCounter, t.images, mapof(t.tokenMap), given, count
  reveal entryText, attributes
  ensures [the text behind the attributes] given == old(given) + "\n" + entryText(content) && count == old(count) + 1
  ensures [is tokenized] r == textOf(old(count))
  ensures [exactly the attributes of the entry] a == attributes(content)
  loop 1
    invariant relevantTags == spans(rowAndColspanMatch, $idx)

func parser.Tokenizer.tokenizeTableRow(t, lines, i) (row, n)
  requires 0 <= i && i < len(lines)
  modifies t.tokenCounter, t.images, mapof(t.tokenMap), given, count
  reveal cellStart, rowStops, firstLine, cellOf
  ensures [exactly the lines of the row] n == rowEnd(lines, i) - 1
  ensures [every text of the cells is used] given == old(given) + rowTexts(lines, i) && count == old(count) + rowSize(lines, i)
  ensures [every cell is in the row] row.Columns == rowCells(lines, i, old(count)) && row.Token == nil
  loop 1
    invariant 0 <= i
    invariant rowEnd(lines, i) == rowEnd(lines, old(i))
    invariant given + rowTexts(lines, i) == old(given) + rowTexts(lines, old(i))
    invariant count + rowSize(lines, i) == old(count) + rowSize(lines, old(i))
    invariant columnTokens + rowCells(lines, i, count) == rowCells(lines, old(i), old(count))
  loop 2
    invariant entry(i) <= i
    invariant cellEnd(lines, i) == cellEnd(lines, entry(i))
    invariant line == cellText(lines, entry(i) - 1, i)

func parser.Tokenizer.tokenizeTableCaption(t, lines, i) (caption, n)
  requires 0 <= i && i < len(lines) && isCaption(lines[i])
  modifies t.tokenCounter, t.images, mapof(t.tokenMap), given, count
  reveal cellStart, isCaption
  ensures [exactly the lines of the caption] n == cellEnd(lines, i + 1) - 1
  ensures [all of its text] given == old(given) + "\n" + entryText(captionText(lines, i, cellEnd(lines, i + 1))) && count == old(count) + 1
  ensures [is the caption] caption.Content == trim(textOf(old(count))) && caption.Token == nil
  loop 1
    invariant entry(i) <= i
    invariant cellEnd(lines, i) == cellEnd(lines, entry(i))
    invariant captionLines == "|+" + captionText(lines, entry(i) - 1, i)
    invariant captionLines == captionText(lines, entry(i) - 1, i)

func parser.Tokenizer.tokenizeTable(t, content) (table)
  modifies t.tokenCounter, t.images, mapof(t.tokenMap), given, count
  reveal cellStart, isCaption, isRow, isEnd, filled, rowAt, ends, row, rowStops
  ensures [every text is used, in its order] given == old(given) + tableTexts(tableLines(content), 0)
  ensures [every row in its place] table.Rows == tableRows(tableLines(content), 0, old(count))
  ensures [the caption] table.Caption.Content == tableCaption(tableLines(content), 0, old(count), "")
  loop 1
    invariant given + tableTexts(lines, i) == old(given) + tableTexts(lines, 0)
    invariant rowTokens + tableRows(lines, i, count) == tableRows(lines, 0, old(count))
    invariant tableCaption(lines, i, count, captionToken.Content) == tableCaption(lines, 0, old(count), "")
