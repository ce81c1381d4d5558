property C14
use strings

# Number of a key. The lemma shows that equal keys have equal numbers, so that the number of a key is well-defined.
spec keyOf(kind string, n int) string = "$$TOKEN_" + kind + "_" + itoa(n) + "$$"
spec num(key string) int
lemma lastPart(a string, x string, b string, y string)
  requires a + "_" + x == b + "_" + y && !contains(x, "_") && !contains(y, "_")
  ensures x == y
lemma digits(n int)
  requires n >= 0
  ensures !contains(itoa(n), "_")
lemma numberText(n int, m int)
  requires n >= 0 && m >= 0 && itoa(n) == itoa(m)
  ensures n == m
lemma keyParts(kind string, n int, kind2 string, n2 int)
  requires keyOf(kind, n) == keyOf(kind2, n2)
  ensures "$$TOKEN_" + kind + "_" + itoa(n) == "$$TOKEN_" + kind2 + "_" + itoa(n2)
lemma uniqueKeys(kind string, n int, kind2 string, n2 int)
  requires n >= 0 && n2 >= 0 && keyOf(kind, n) == keyOf(kind2, n2)
  ensures n == n2
  by keyParts(kind, n, kind2, n2)
  by digits(n)
  by digits(n2)
  by lastPart("$$TOKEN_" + kind, itoa(n), "$$TOKEN_" + kind2, itoa(n2))
  by numberText(n, n2)
axiom numberOfKey(kind string, n int)
  note "definition (see uniqueKeys)"
  requires n >= 0
  ensures num(keyOf(kind, n)) == n
  trigger keyOf(kind, n)

spec own(t *parser.Tokenizer) bool = t != nil && t.tokenMap != nil && t.tokenCounter >= 0 && (forall k string: dom(t.tokenMap, k) ==> num(k) < t.tokenCounter)

define STABLE
  t.tokenCounter >= old(t.tokenCounter) && t.tokenMap == old(t.tokenMap) && own(t) && (forall k string: num(k) < old(t.tokenCounter) ==> (dom(t.tokenMap, k) <==> old(dom(t.tokenMap, k))) && t.tokenMap[k] == old(t.tokenMap[k]))
enddefine
define KEYS
  requires [keys belong to the tokenizer] own(t)
  modifies t.tokenCounter, t.images, mapof(t.tokenMap)
  ensures [keys already handed out keep their content]
  @STABLE
  loop all
    invariant
    @STABLE
enddefine

verify parser.Tokenizer.getToken, parser.Tokenizer.setToken, parser.Tokenizer.setRawToken, parser.tokenizeContent
verify parser.Tokenizer.parseHeadings, parser.Tokenizer.parseNowiki, parser.Tokenizer.parseReferences, parser.Tokenizer.parseReferenceEndPlaceholder, parser.Tokenizer.parseNamedReferenceUsage, parser.Tokenizer.parseReferenceDefinition
verify parser.Tokenizer.parseInternalLinks, parser.Tokenizer.parseExternalLinks, parser.Tokenizer.parseLink
verify parser.Tokenizer.parseGalleries, parser.Tokenizer.parseImageMaps, parser.Tokenizer.parseImages, parser.Tokenizer.parseMath, parser.Tokenizer.parseParagraphs, parser.Tokenizer.parseBoldAndItalic, parser.Tokenizer.tokenizeBoldAndItalic
verify parser.Tokenizer.parseLists, parser.Tokenizer.tokenizeList
verify parser.Tokenizer.parseTables, parser.Tokenizer.tokenizeTables, parser.Tokenizer.tokenizeTable, parser.Tokenizer.tokenizeTableRow, parser.Tokenizer.tokenizeTableCaption, parser.Tokenizer.tokenizeTableEntry
verify parser.Tokenizer.Tokenize, parser.NewTokenizer

func parser.Tokenizer.getToken(t, kind) (r)
  requires own(t)
  modifies t.tokenCounter
  ensures [a new number] t.tokenCounter == old(t.tokenCounter) + 1 && r == keyOf(kind, old(t.tokenCounter)) && num(r) == old(t.tokenCounter)
func parser.Tokenizer.setRawToken(t, key, content)
  requires [the key has been handed out] own(t) && num(key) < t.tokenCounter
  requires [no stored token is replaced] !dom(t.tokenMap, key)
  modifies mapof(t.tokenMap)
  ensures [stored] dom(t.tokenMap, key) && t.tokenMap[key] == content
  ensures [other tokens are kept] forall k string: k != key ==> (dom(t.tokenMap, k) <==> old(dom(t.tokenMap, k))) && t.tokenMap[k] == old(t.tokenMap[k])
func parser.Tokenizer.setToken(t, key, content)
  requires own(t) && num(key) < t.tokenCounter
  requires [no stored token is replaced] !dom(t.tokenMap, key)
  modifies t.tokenCounter, t.images, mapof(t.tokenMap)
  ensures [stored] own(t) && t.tokenMap == old(t.tokenMap) && dom(t.tokenMap, key)
  ensures [other tokens are kept] forall k string: k != key && num(k) < old(t.tokenCounter) ==> (dom(t.tokenMap, k) <==> old(dom(t.tokenMap, k))) && t.tokenMap[k] == old(t.tokenMap[k])
extern parser.Tokenizer.tokenizeContent(t, content) (r)
  note "NewTokenizer sets it to parser.tokenizeContent, which is verified"
  @KEYS
func parser.tokenizeContent(t, content) (r)
  @KEYS
func parser.Tokenizer.parseHeadings(t, content) (r)
  @KEYS
func parser.Tokenizer.parseNowiki(t, content) (r)
  @KEYS
func parser.Tokenizer.parseReferences(t, content) (r)
  @KEYS
  loop 1
    invariant mapsKept("map[string]int") && mapsKept("map[int]string")
    invariant forall g string: dom(nameToRefNumber, g) ==> fresh(nameToRefNumber[g])
    invariant forall g string: dom(refNumberToContent, g) ==> fresh(refNumberToContent[g])
func parser.Tokenizer.parseReferenceEndPlaceholder(t, content, i, startEndIndex, refNumberCounter, refNumberToContent) (r)
  @KEYS
  modifies mapof(refNumberToContent)
func parser.Tokenizer.parseNamedReferenceUsage(t, content, i, nameAttributeValue, nameToRefNumber, refNumberCounter, inside, startEndIndex) (n, r)
  @KEYS
  modifies mapof(nameToRefNumber)
func parser.Tokenizer.parseReferenceDefinition(t, content, i, startEndIndex, refEndIndex, refNumberCounter, nameAttributeValue, nameToRefNumber, refNumberToContent, inside, refDefLongEndLen) (n, r)
  @KEYS
  modifies mapof(nameToRefNumber), mapof(refNumberToContent)
func parser.Tokenizer.parseInternalLinks(t, content) (r)
  @KEYS
func parser.Tokenizer.parseExternalLinks(t, content) (r)
  @KEYS
func parser.Tokenizer.parseLink(t, content, openingBrackets, closingBrackets, linkDelimiter, linkType, delimiterRequired, removeSectionReference) (r)
  @KEYS
func parser.Tokenizer.parseGalleries(t, content) (r)
  @KEYS
func parser.Tokenizer.parseImageMaps(t, content) (r)
  @KEYS
func parser.Tokenizer.parseImages(t, content) (r)
  @KEYS
func parser.Tokenizer.parseMath(t, content) (r)
  @KEYS
func parser.Tokenizer.parseParagraphs(t, content) (r)
  @KEYS
func parser.Tokenizer.parseBoldAndItalic(t, content) (r)
  @KEYS
func parser.Tokenizer.parseLists(t, content) (r)
  @KEYS
func parser.Tokenizer.tokenizeList(t, lines, i, prefix) (l, key, n)
  @KEYS
func parser.Tokenizer.parseTables(t, content) (r)
  @KEYS
func parser.Tokenizer.tokenizeTables(t, lines, i) (r, n)
  @KEYS
func parser.Tokenizer.tokenizeTable(t, content) (r)
  @KEYS
func parser.Tokenizer.tokenizeTableRow(t, lines, i) (r, n)
  @KEYS
func parser.Tokenizer.tokenizeTableCaption(t, lines, i) (r, n)
  @KEYS
func parser.Tokenizer.tokenizeTableEntry(t, content) (r, a)
  @KEYS
extern parser.Tokenizer.clean(t, content) (r, err)
  requires own(t)
  modifies t.images
extern parser.Tokenizer.evaluateTemplates(t, content) (r, err)
  modifies t.images
func parser.Tokenizer.Tokenize(t, content, title) (r, err)
  @KEYS
  ensures [all tokens are handed over] err == nil ==> r != nil && r.TokenMap == t.tokenMap
func parser.NewTokenizer(s) (r)
  ensures [starts without tokens] r.tokenCounter == 0 && r.tokenMap != nil && fresh(r.tokenMap) && (forall k string: !dom(r.tokenMap, k))
  ensures isFn(r.tokenizeContent, "parser.tokenizeContent")
func parser.Tokenizer.tokenizeBoldAndItalic(t, content, index, stack, repair, isBold, isItalic) (ok, s)
  note "no tokens"
