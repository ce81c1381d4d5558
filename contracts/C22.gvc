property C22
use strings
strict

# Expansions are functions of the handler and the expanded part; "asked" is the sequence of all tokens whose expansion
# has been asked for, trace(h, c) what expanding c contributes to it.
ghost asked []any
spec trace(h generator.ExpansionHandler, content any) []any
spec known(t any) bool = isType(t, "parser.HeadingToken") || isType(t, "parser.InlineImageToken") || isType(t, "parser.ImageToken") || isType(t, "parser.ExternalLinkToken") || isType(t, "parser.InternalLinkToken") || isType(t, "parser.UnorderedListToken") || isType(t, "parser.OrderedListToken") || isType(t, "parser.DescriptionListToken") || isType(t, "parser.ListItemToken") || isType(t, "parser.TableToken") || isType(t, "parser.TableRowToken") || isType(t, "parser.TableColToken") || isType(t, "parser.TableCaptionToken") || isType(t, "parser.MathToken") || isType(t, "parser.RefDefinitionToken") || isType(t, "parser.RefUsageToken") || isType(t, "parser.NowikiToken")
spec work(h generator.ExpansionHandler, token any) []any

verify generator.expandToken safety, generator.expand safety, generator.expandString safety
verify generator.HtmlGenerator.getToken, generator.HtmlGenerator.expandSimpleString

# regexp: positions of all matches from left to right
pure extern regexp.Regexp.FindAllStringIndex(re, s, n) (r) as findAll
axiom matchRange(re *regexp.Regexp, s string, i int)
  note "the matches of the token expression are not empty, do not overlap and are ordered"
  requires 0 <= i && i < len(findAll(re, s, -1))
  ensures len(findAll(re, s, -1)[i]) == 2
  ensures 0 <= findAll(re, s, -1)[i][0] && findAll(re, s, -1)[i][0] < findAll(re, s, -1)[i][1] && findAll(re, s, -1)[i][1] <= len(s)
  ensures i > 0 ==> findAll(re, s, -1)[i-1][1] <= findAll(re, s, -1)[i][0]
  trigger findAll(re, s, -1)[i]

pure extern generator.ExpansionHandler.getToken(h, k) (t, ok) as tokenOf, hasToken
pure extern generator.ExpansionHandler.expandSimpleString(h, s) (r) as simple
pure extern generator.ExpansionHandler.expandMarker(h, s) (r) as marker
pure extern generator.ExpansionHandler.expandHeadings(h, t) (r, err) as xHeading, eHeading
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandInlineImage(h, t) (r, err) as xInlineImage, eInlineImage
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandImage(h, t) (r, err) as xImage, eImage
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandInternalLink(h, t) (r, err) as xInternalLink, eInternalLink
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandExternalLink(h, t) (r, err) as xExternalLink, eExternalLink
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandTable(h, t) (r, err) as xTable, eTable
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandTableRow(h, t) (r, err) as xRow, eRow
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandTableColumn(h, t) (r, err) as xCol, eCol
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandTableCaption(h, t) (r, err) as xCaption, eCaption
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandUnorderedList(h, t) (r, err) as xUl, eUl
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandOrderedList(h, t) (r, err) as xOl, eOl
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandDescriptionList(h, t) (r, err) as xDl, eDl
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandListItem(h, t) (r, err) as xItem, eItem
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandRefDefinition(h, t) (r, err) as xRefDef, eRefDef
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandRefUsage(h, t) (r) as xRefUsage
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandMath(h, t) (r, err) as xMath, eMath
  modifies asked
  ensures asked == old(asked) + work(h, box(t))
pure extern generator.ExpansionHandler.expandNowiki(h, t) (r) as xNowiki
  modifies asked
  ensures asked == old(asked) + work(h, box(t))

axiom traceOfToken(h generator.ExpansionHandler, token any)
  note "definition"
  requires token != nil && !isType(token, "string")
  ensures trace(h, token) == seqOf(token) + work(h, token)
  trigger trace(h, token)
axiom traceOfText(h generator.ExpansionHandler, content any)
  note "definition"
  requires isType(content, "string")
  ensures trace(h, content) == tokens(h, marked(h, as(content, "string")), matches(h, as(content, "string")), len(matches(h, as(content, "string"))))
  trigger trace(h, content)
axiom noWork(h generator.ExpansionHandler, token any)
  note "definition"
  requires !known(token)
  ensures work(h, token) == emptySeq("any")
  trigger work(h, token)

pure func generator.expandToken(h, token) (r, err) as xToken, eToken
  requires h != nil
  set asked := asked + seqOf(token)
  modifies asked
  ensures [each token is expanded once, by one handler] asked == old(asked) + seqOf(token) + work(h, token)
  ensures [errors are passed on] err != nil ==> r == ""
  ensures [headings] isType(token, "parser.HeadingToken") ==> err == eHeading(h, as(token, "parser.HeadingToken")) && (err == nil ==> r == xHeading(h, as(token, "parser.HeadingToken")))
  ensures [inline images] isType(token, "parser.InlineImageToken") ==> err == eInlineImage(h, as(token, "parser.InlineImageToken")) && (err == nil ==> r == xInlineImage(h, as(token, "parser.InlineImageToken")))
  ensures [images] isType(token, "parser.ImageToken") ==> err == eImage(h, as(token, "parser.ImageToken")) && (err == nil ==> r == xImage(h, as(token, "parser.ImageToken")))
  ensures [external links] isType(token, "parser.ExternalLinkToken") ==> err == eExternalLink(h, as(token, "parser.ExternalLinkToken")) && (err == nil ==> r == xExternalLink(h, as(token, "parser.ExternalLinkToken")))
  ensures [internal links] isType(token, "parser.InternalLinkToken") ==> err == eInternalLink(h, as(token, "parser.InternalLinkToken")) && (err == nil ==> r == xInternalLink(h, as(token, "parser.InternalLinkToken")))
  ensures [unordered lists] isType(token, "parser.UnorderedListToken") ==> err == eUl(h, as(token, "parser.UnorderedListToken")) && (err == nil ==> r == xUl(h, as(token, "parser.UnorderedListToken")))
  ensures [ordered lists] isType(token, "parser.OrderedListToken") ==> err == eOl(h, as(token, "parser.OrderedListToken")) && (err == nil ==> r == xOl(h, as(token, "parser.OrderedListToken")))
  ensures [description lists] isType(token, "parser.DescriptionListToken") ==> err == eDl(h, as(token, "parser.DescriptionListToken")) && (err == nil ==> r == xDl(h, as(token, "parser.DescriptionListToken")))
  ensures [list items] isType(token, "parser.ListItemToken") ==> err == eItem(h, as(token, "parser.ListItemToken")) && (err == nil ==> r == xItem(h, as(token, "parser.ListItemToken")))
  ensures [tables] isType(token, "parser.TableToken") ==> err == eTable(h, as(token, "parser.TableToken")) && (err == nil ==> r == xTable(h, as(token, "parser.TableToken")))
  ensures [rows] isType(token, "parser.TableRowToken") ==> err == eRow(h, as(token, "parser.TableRowToken")) && (err == nil ==> r == xRow(h, as(token, "parser.TableRowToken")))
  ensures [cells] isType(token, "parser.TableColToken") ==> err == eCol(h, as(token, "parser.TableColToken")) && (err == nil ==> r == xCol(h, as(token, "parser.TableColToken")))
  ensures [captions] isType(token, "parser.TableCaptionToken") ==> err == eCaption(h, as(token, "parser.TableCaptionToken")) && (err == nil ==> r == xCaption(h, as(token, "parser.TableCaptionToken")))
  ensures [formulas] isType(token, "parser.MathToken") ==> err == eMath(h, as(token, "parser.MathToken")) && (err == nil ==> r == xMath(h, as(token, "parser.MathToken")))
  ensures [reference definitions] isType(token, "parser.RefDefinitionToken") ==> err == eRefDef(h, as(token, "parser.RefDefinitionToken")) && (err == nil ==> r == xRefDef(h, as(token, "parser.RefDefinitionToken")))
  ensures [reference usages] isType(token, "parser.RefUsageToken") ==> err == nil && r == xRefUsage(h, as(token, "parser.RefUsageToken"))
  ensures [nowiki] isType(token, "parser.NowikiToken") ==> err == nil && r == xNowiki(h, as(token, "parser.NowikiToken"))

pure func generator.expand(h, content) (r, err) as ex, eEx
  requires h != nil
  modifies asked
  ensures [expanded once] err == nil ==> asked == old(asked) + trace(h, content)
  ensures [text] isType(content, "string") ==> err == eString(h, as(content, "string")) && r == xString(h, as(content, "string"))
  ensures [tokens] !isType(content, "string") && content != nil ==> err == eToken(h, content) && r == xToken(h, content)
  ensures [missing content] content == nil ==> err != nil

# the text between two tokens
spec between(h generator.ExpansionHandler, s string) string = ite(s == "", "", simple(h, s))
spec endOf(ms [][]int, k int) int = ite(k <= 0, 0, ms[k-1][1])
spec key(c string, ms [][]int, k int) string = c[ms[k][0]:ms[k][1]]
# the first k tokens with the text before each of them
rec spec woven(h generator.ExpansionHandler, c string, ms [][]int, k int) string =
  ite(k <= 0, "", woven(h, c, ms, k - 1) + between(h, c[endOf(ms, k - 1):ms[k-1][0]]) + ex(h, tokenOf(h, key(c, ms, k - 1))))
rec spec tokens(h generator.ExpansionHandler, c string, ms [][]int, k int) []any =
  ite(k <= 0, emptySeq("any"), tokens(h, c, ms, k - 1) + trace(h, tokenOf(h, key(c, ms, k - 1))))
spec marked(h generator.ExpansionHandler, content string) string = marker(h, content)
spec matches(h generator.ExpansionHandler, content string) [][]int = findAll(generator.tokenRegex, marker(h, content), -1)

pure func generator.expandString(h, content) (r, err) as xString, eString
  requires h != nil
  modifies asked
  ensures [text and tokens in order] err == nil && len(matches(h, content)) > 0 ==> r == woven(h, marked(h, content), matches(h, content), len(matches(h, content))) + between(h, marked(h, content)[endOf(matches(h, content), len(matches(h, content))):])
  ensures [text without tokens] len(matches(h, content)) == 0 ==> err == nil && r == simple(h, marked(h, content))
  ensures [every token once] err == nil ==> asked == old(asked) + tokens(h, marked(h, content), matches(h, content), len(matches(h, content)))
  ensures [unknown tokens are errors] err == nil ==> (forall i in 0 .. len(matches(h, content)): hasToken(h, key(marked(h, content), matches(h, content), i)))
  ensures [failing expansions are errors] err == nil ==> (forall i in 0 .. len(matches(h, content)): eEx(h, tokenOf(h, key(marked(h, content), matches(h, content), i))) == nil)
  ensures [no other errors] err != nil ==> (exists i in 0 .. len(matches(h, content)): !hasToken(h, key(marked(h, content), matches(h, content), i)) || eEx(h, tokenOf(h, key(marked(h, content), matches(h, content), i))) != nil)
  loop 1
    invariant newContent == woven(h, marked(h, old(content)), matches(h, old(content)), $idx)
    invariant asked == old(asked) + tokens(h, marked(h, old(content)), matches(h, old(content)), $idx)
    invariant textSegmentStartIndex == endOf(matches(h, old(content)), $idx)
    invariant forall i in 0 .. $idx: hasToken(h, key(marked(h, old(content)), matches(h, old(content)), i))
    invariant forall i in 0 .. $idx: eEx(h, tokenOf(h, key(marked(h, old(content)), matches(h, old(content)), i))) == nil

func generator.HtmlGenerator.expandSimpleString(g, content) (r)
  ensures [text is kept] r == content
func generator.HtmlGenerator.getToken(g, k) (t, ok)
  requires g != nil
  ensures [the stored content] (ok <==> g.TokenMap != nil && dom(g.TokenMap, k)) && (ok ==> t == g.TokenMap[k])

# the HTML file of an article contains the whole expanded article
verify generator.HtmlGenerator.Generate, generator.write
ghost article *parser.Article
ghost generator *generator.HtmlGenerator
ghost html string
spec wholeArticle(c string) bool = suffix(c, ex(box(generator), box(article.Content)) + "\n</body>\n</html>\n")
pure extern strings.ReplaceAll(s, a, b) (r) as replaceAll
pure extern strings.NewReader(s) (r) as newReader
extern util.ToRelativePathWithBasedir(b, p) (r, err)
extern cache.GetDirPathInCache(d) (r)
extern os.Mkdir(p, mode) (err)
extern os.IsExist(e) (r)
extern cache.CacheToFile(folder, file, reader) (path, err)
  note "verified as properties C03 and C04"
  requires [the HTML of this article] folder == "html" && file == article.Title + ".html" && wholeArticle(html) && reader == box(newReader(html))
  modifies stored, storedPath
  ensures stored == (err == nil) && storedPath == path
ghost stored bool
ghost storedPath string
func generator.write(title, outputFolder, content) (r, err)
  requires [the whole article] title == article.Title && outputFolder == "html" && wholeArticle(content)
  requires article != nil && !stored
  set html := content
  modifies stored, storedPath, html
  ensures [written] err == nil ==> stored && r == storedPath
  ensures [failures are reported] !stored ==> err != nil
func generator.HtmlGenerator.Generate(g, wikiArticle) (r, err)
  requires g != nil && wikiArticle != nil && article == wikiArticle && !stored
  requires generator == g
  modifies asked, stored, storedPath, html
  ensures [written] err == nil ==> stored && r == storedPath
  ensures [expansion errors are passed on] eEx(box(g), box(wikiArticle.Content)) != nil ==> err != nil && !stored
