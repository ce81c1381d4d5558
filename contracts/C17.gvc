property C17
use strings
use split

pure extern regexp.Regexp.FindStringSubmatch(re, s) (r) as submatch
  ensures len(r) == 0 || len(r) == 1 + regexGroups(re)
pure extern regexp.Regexp.FindAllStringSubmatch(re, s, n) (r) as allSubmatches
  ensures forall i in 0 .. len(r): len(r[i]) == 1 + regexGroups(re)
pure extern regexp.Regexp.FindStringIndex(re, s) (r) as findIndex
  ensures len(r) == 0 || len(r) == 2 && 0 <= r[0] && r[0] + regexMin(re) <= r[1] && r[1] <= len(s)
pure extern strings.ReplaceAll(s, x, y) (r) as replaceAll
  ensures s != "" && x != "" && y != "" ==> r != ""
extern crypto/sha1.New() (r)
  ensures r != nil

spec usable(t *parser.Tokenizer) bool = t != nil && t.tokenMap != nil

define STEP
  requires usable(t)
  modifies t.tokenCounter, t.images, mapof(t.tokenMap)
  ensures usable(t)
  loop all
    invariant usable(t)
enddefine

verify parser.findCorrespondingCloseToken safety, parser.FindCorrespondingCloseToken safety, parser.FindCorrespondingCloseTokenIgnoreCase safety
verify parser.Tokenizer.clean safety, parser.Tokenizer.removeComments safety, parser.Tokenizer.removeUnwantedInternalLinks safety, parser.Tokenizer.handleUnwantedAndTrailingTemplates safety, parser.Tokenizer.removeUnwantedHtml safety, parser.Tokenizer.removeUnwantedWikitext safety, parser.Tokenizer.removeEmptyListEntries safety, parser.isListBeginning safety, parser.Tokenizer.removeEmptySections safety, parser.Tokenizer.walkSection safety, parser.Tokenizer.headingDepth safety
verify parser.Tokenizer.parseBoldAndItalic safety, parser.Tokenizer.tokenizeBoldAndItalic safety, parser.Tokenizer.parseParagraphs safety, parser.hasOddNumberOfItems safety
verify parser.Tokenizer.hackGermanRailwayTemplates safety
verify parser.Tokenizer.parseHeadings safety, parser.Tokenizer.parseMath safety, parser.Tokenizer.parseNowiki safety
verify parser.Tokenizer.escapeImages safety, parser.Tokenizer.parseGalleries safety, parser.Tokenizer.parseImageMaps safety, parser.Tokenizer.parseImages safety, parser.findImageStart safety
verify parser.Tokenizer.parseInternalLinks safety, parser.Tokenizer.parseExternalLinks safety, parser.Tokenizer.parseLink safety
verify parser.Tokenizer.parseLists safety, parser.Tokenizer.tokenizeList safety, parser.belongsToListPrefix safety, parser.isListStartingCharacter safety, parser.removeListPrefix safety, parser.Tokenizer.getListTokenKey safety, parser.Tokenizer.getListItemTypeForList safety
verify parser.Tokenizer.parseReferences safety, parser.Tokenizer.parseReferenceEndPlaceholder safety, parser.Tokenizer.parseNamedReferenceUsage safety, parser.Tokenizer.parseReferenceDefinition safety, parser.Tokenizer.getNameAttribute safety, parser.Tokenizer.getGroupOrDefault safety, parser.Tokenizer.getAttribute safety
verify parser.Tokenizer.parseTables safety, parser.Tokenizer.tokenizeTables safety, parser.Tokenizer.tokenizeTable safety, parser.Tokenizer.tokenizeTableRow safety, parser.Tokenizer.tokenizeTableCaption safety, parser.Tokenizer.tokenizeTableEntry safety
verify parser.Tokenizer.evaluateTemplates safety, parser.Tokenizer.replaceTemplateByPlaceholders safety
verify parser.Tokenizer.Tokenize safety, parser.NewTokenizer safety, parser.tokenizeContent safety, parser.Tokenizer.getToken safety, parser.Tokenizer.setToken safety, parser.Tokenizer.setRawToken safety, parser.Tokenizer.getTokenMap safety

func parser.findCorrespondingCloseToken(content, startIndex, openingToken, closingToken, ignoreCase) (r)
  requires startIndex >= 0
  requires len(openingToken) > 0 && len(closingToken) > 0
  ensures [range] r == -1 || startIndex <= r && r + len(closingToken) <= len(content)
  ensures [position of the token] r != -1 ==> ite(ignoreCase, lower(content[r:r + len(closingToken)]) == lower(closingToken), content[r:r + len(closingToken)] == closingToken)
func parser.FindCorrespondingCloseToken(content, startIndex, openingToken, closingToken) (r)
  requires startIndex >= 0
  requires len(openingToken) > 0 && len(closingToken) > 0
  ensures [range] r == -1 || startIndex <= r && r + len(closingToken) <= len(content)
  ensures [position of the token] r != -1 ==> content[r:r + len(closingToken)] == closingToken
func parser.FindCorrespondingCloseTokenIgnoreCase(content, startIndex, openingToken, closingToken) (r)
  requires startIndex >= 0
  requires len(openingToken) > 0 && len(closingToken) > 0
  ensures [range] r == -1 || startIndex <= r && r + len(closingToken) <= len(content)
  ensures [position of the token] r != -1 ==> lower(content[r:r + len(closingToken)]) == lower(closingToken)

axiom lowerSymbol(s string, i int, n int)
  note "no other letter has < or > as its lower case form"
  requires 0 <= i && i + n <= len(s) && n > 0
  ensures (lower(s[i:i + n])[0:1] == "<") <==> (s[i:i + 1] == "<")
  ensures (lower(s[i:i + n])[0:1] == ">") <==> (s[i:i + 1] == ">")
  trigger lower(s[i:i + n])

func parser.Tokenizer.clean(t, content) (r, err)
func parser.Tokenizer.removeComments(t, content) (r)
func parser.Tokenizer.removeUnwantedInternalLinks(t, content) (r)
func parser.Tokenizer.handleUnwantedAndTrailingTemplates(t, content) (r)
func parser.Tokenizer.removeUnwantedHtml(t, content) (r)
func parser.Tokenizer.removeUnwantedWikitext(t, content) (r)
func parser.Tokenizer.removeEmptyListEntries(t, content) (r)
func parser.Tokenizer.removeEmptySections(t, content) (r)
func parser.Tokenizer.walkSection(t, i, lines, depth) (n, empty)
  requires 0 <= i && i < len(lines)
  ensures i <= n && n <= len(lines)
func parser.Tokenizer.headingDepth(t, line) (r)
  ensures r >= 0
func parser.Tokenizer.hackGermanRailwayTemplates(t, content, startIndex) (r, err)
  requires startIndex >= 0
func parser.Tokenizer.parseParagraphs(t, content) (r)
spec inside(items []parser.BoldItalicStackItem, n int) bool = forall k in 0 .. len(items): 0 <= items[k].index && 0 <= items[k].length && items[k].length <= 3 && items[k].index + items[k].length <= n
func parser.Tokenizer.tokenizeBoldAndItalic(t, content, index, stack, repair, isBold, isItalic) (ok, s)
  requires index >= 0
  requires inside(stack, len(content))
  ensures [positions are inside of the text] inside(s, len(content))
func parser.Tokenizer.parseBoldAndItalic(t, content) (r)
  loop 3
    invariant offset >= 0 && len(chars) == len(content) + offset
# the first colon stands before the first bar
spec colonFirst(s string) bool = contains(s, ":") && (!contains(s, "|") || indexOf(s, ":") < indexOf(s, "|"))
lemma cut(s string, n int, i int)
  requires 0 <= i && i < n && n <= len(s) && s[i:i + 1] == ":"
  ensures contains(s[:n], ":")
lemma firstPart(s string)
  requires colonFirst(s)
  ensures contains(split(s, "|")[0], ":")
  trigger split(s, "|")
  by cut(s, ite(contains(s, "|"), indexOf(s, "|"), len(s)), indexOf(s, ":"))
  hide partsWithoutSeparator
lemma untilSymbol(s string, a string)
  requires prefix(s, a + ":") && !contains(a, "|") && !contains(a, ":")
  ensures indexOf(s, ":") == len(a) && colonFirst(s)
lemma joined(l []string, a string, f string)
  requires len(l) > 0 && l[0] == a + ":" + f && !contains(a, "|") && !contains(a, ":")
  ensures colonFirst(strJoin(l, "|"))
  trigger strJoin(l, "|"), a + ":" + f
  by untilSymbol(strJoin(l, "|"), a)
func parser.Tokenizer.escapeImages(t, content) (r)
  requires usable(t)
  ensures [a file name with its prefix or nothing] r == "" || colonFirst(r)
  modifies t.images
func parser.findImageStart(content, index) (r)
  requires 0 <= index && index <= len(content)
  ensures len(r) == 0 || len(r) == 2 && index <= r[0] && r[0] < r[1] && r[1] <= len(content)

extern parser.Tokenizer.tokenizeContent(t, content) (r)
  note "NewTokenizer sets it to parser.tokenizeContent, which is verified"
  @STEP
func parser.tokenizeContent(t, content) (r)
  @STEP
func parser.Tokenizer.parseHeadings(t, content) (r)
  @STEP
func parser.Tokenizer.parseNowiki(t, content) (r)
  @STEP
func parser.Tokenizer.parseReferences(t, content) (r)
  @STEP
  loop 1
    invariant mapsKept("map[string]int") && mapsKept("map[int]string")
    invariant forall g string: dom(nameToRefNumber, g) ==> fresh(nameToRefNumber[g])
    invariant forall g string: dom(refNumberToContent, g) ==> fresh(refNumberToContent[g])
func parser.Tokenizer.parseReferenceEndPlaceholder(t, content, i, startEndIndex, refNumberCounter, refNumberToContent) (r)
  requires 0 <= i && i <= startEndIndex && startEndIndex < len(content) && refNumberToContent != nil
  @STEP
  modifies mapof(refNumberToContent)
  ensures [the text behind the tag is kept] len(r) >= len(content) - (startEndIndex + 1)
func parser.Tokenizer.parseNamedReferenceUsage(t, content, i, nameAttributeValue, nameToRefNumber, refNumberCounter, inside, startEndIndex) (n, r)
  requires 0 <= i && i <= startEndIndex && startEndIndex < len(content) && nameToRefNumber != nil
  @STEP
  modifies mapof(nameToRefNumber)
  ensures [the text behind the tag is kept] len(r) >= len(content) - (startEndIndex + 1)
func parser.Tokenizer.parseReferenceDefinition(t, content, i, startEndIndex, refEndIndex, refNumberCounter, nameAttributeValue, nameToRefNumber, refNumberToContent, inside, refDefLongEndLen) (n, r)
  requires 0 <= i && i <= startEndIndex && startEndIndex < refEndIndex && refDefLongEndLen >= 0 && refEndIndex + refDefLongEndLen <= len(content) && nameToRefNumber != nil && refNumberToContent != nil
  @STEP
  modifies mapof(nameToRefNumber), mapof(refNumberToContent)
  ensures [the text behind the tag is kept] len(r) >= len(content) - (refEndIndex + refDefLongEndLen)
# the part of the text before a quote that follows the attribute name
spec rest(s string) string = s[indexOf(s, "\"") + 1:]
spec start(s string) string = s[:indexOf(s, "\"")]
rec spec attributeAt(s string, x string) int =
  ite(!contains(s, "\"") || suffix(start(s), x), 0, 1 + attributeAt(rest(s), x))
axiom splitRest(s string)
  note "Split: the parts behind the first separator are the parts of the text behind it"
  requires contains(s, "\"")
  ensures split(s, "\"") == seqOf(start(s)) + split(rest(s), "\"")
lemma before(s string, x string, p int)
  requires 0 <= p && p + len(x) < len(s) && s[p:p + len(x) + 1] == x + "\"" && !contains(x, "\"") && !suffix(start(s), x)
  ensures p >= indexOf(s, "\"") + 1
lemma later(s string, x string)
  requires contains(s, x + "\"") && !contains(x, "\"") && !suffix(start(s), x)
  ensures contains(rest(s), x + "\"")
  by before(s, x, indexOf(s, x + "\""))
lemma quoted(s string, x string)
  requires contains(s, x + "\"")
  ensures contains(s, "\"")
lemma oneFurther(h string, l []string, k int, x string)
  requires 0 <= k && k < len(l) - 1 && suffix(l[k], x)
  ensures k + 1 < len(seqOf(h) + l) - 1 && suffix((seqOf(h) + l)[k + 1], x)
spec foundAt(s string, x string) bool = 0 <= attributeAt(s, x) && attributeAt(s, x) < len(split(s, "\"")) - 1 && suffix(split(s, "\"")[attributeAt(s, x)], x)
lemma foundHere(s string, x string)
  requires contains(s, "\"") && suffix(start(s), x)
  ensures foundAt(s, x)
  by splitRest(s)
lemma foundLater(s string, x string)
  requires contains(s, "\"") && !suffix(start(s), x) && foundAt(rest(s), x)
  ensures foundAt(s, x)
  by splitRest(s)
  by oneFurther(start(s), split(rest(s), "\""), attributeAt(rest(s), x), x)
  hide firstPartOfSplit
  hide partsWithoutSeparator
lemma attributeFound(s string, x string)
  requires contains(s, x + "\"") && !contains(x, "\"")
  ensures foundAt(s, x)
  induct s
  by quoted(s, x)
  by later(s, x)
  by foundHere(s, x)
  by foundLater(s, x)
  by attributeFound(rest(s), x)
  hide firstPartOfSplit
  hide partsWithoutSeparator
  hide attributeAt
lemma namedFound(s string, name string)
  requires contains(s, " " + name + "=\"") && !contains(name, "\"")
  ensures foundAt(s, " " + name + "=")
  trigger split(s, "\""), contains(s, " " + name + "=\"")
  by attributeFound(s, " " + name + "=")
  hide firstPartOfSplit
  hide partsWithoutSeparator
  hide attributeAt
func parser.Tokenizer.getAttribute(t, content, name) (r)
  requires !contains(name, "\"")
  loop 1
    invariant forall k in 0 .. $idx: !suffix(parts[k], " " + name + "=")
func parser.Tokenizer.getNameAttribute(t, content) (r)
func parser.Tokenizer.getGroupOrDefault(t, content) (r)
func parser.Tokenizer.parseInternalLinks(t, content) (r)
  @STEP
func parser.Tokenizer.parseExternalLinks(t, content) (r)
  @STEP
func parser.Tokenizer.parseLink(t, content, openingBrackets, closingBrackets, linkDelimiter, linkType, delimiterRequired, removeSectionReference) (r)
  requires openingBrackets != "" && closingBrackets != "" && linkDelimiter != ""
  @STEP
func parser.Tokenizer.parseGalleries(t, content) (r)
  @STEP
func parser.Tokenizer.parseImageMaps(t, content) (r)
  @STEP
func parser.Tokenizer.parseImages(t, content) (r)
  @STEP
  loop 1
    invariant len(startIndex) == 0 || len(startIndex) == 2 && 0 <= startIndex[0] && startIndex[0] < startIndex[1] && startIndex[1] <= len(content)
func parser.Tokenizer.parseMath(t, content) (r)
  @STEP
func parser.Tokenizer.parseLists(t, content) (r)
  @STEP
func parser.Tokenizer.tokenizeList(t, lines, i, prefix) (l, key, n)
  requires 0 <= i && i <= len(lines)
  ensures i <= n && n <= len(lines)
  loop 1
    invariant len(listLines) <= i - startLineIndex
    invariant forall k in 0 .. len(listLines): listLines[k] != ""
  @STEP
func parser.Tokenizer.parseTables(t, content) (r)
  @STEP
func parser.Tokenizer.tokenizeTables(t, lines, i) (r, n)
  requires 0 <= i && i < len(lines)
  ensures i <= n
  @STEP
func parser.Tokenizer.tokenizeTable(t, content) (r)
  @STEP
func parser.Tokenizer.tokenizeTableRow(t, lines, i) (r, n)
  requires 0 <= i && i < len(lines)
  ensures i - 1 <= n && n < len(lines)
  @STEP
func parser.Tokenizer.tokenizeTableCaption(t, lines, i) (r, n)
  requires 0 <= i && i < len(lines)
  ensures i - 1 <= n && n < len(lines)
  @STEP
func parser.Tokenizer.tokenizeTableEntry(t, content) (r, a)
  @STEP
func parser.Tokenizer.evaluateTemplates(t, content) (r, err)
  requires usable(t) && t.wikipediaService != nil
func parser.Tokenizer.replaceTemplateByPlaceholders(t, content, m) (r, err)
  requires usable(t) && t.wikipediaService != nil && m != nil
  modifies mapof(m)
func parser.Tokenizer.Tokenize(t, content, title) (r, err)
  @STEP
  requires t.wikipediaService != nil
  ensures err == nil ==> r != nil
func parser.NewTokenizer(s) (r)
  ensures r.tokenMap != nil && isFn(r.tokenizeContent, "parser.tokenizeContent")
func parser.Tokenizer.getToken(t, kind) (r)
  requires usable(t)
  modifies t.tokenCounter
func parser.Tokenizer.setRawToken(t, key, content)
  requires usable(t)
  modifies mapof(t.tokenMap)
func parser.Tokenizer.setToken(t, key, content)
  @STEP
func parser.Tokenizer.getTokenMap(t) (r)
  requires t != nil
